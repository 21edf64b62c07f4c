use crate::engine::*;
use crate::model::*;
use crate::out::*;

pub mod features;
pub mod balancing;
pub mod damage;
pub mod initfile;
pub mod money;
pub mod exprs;
pub mod files;
pub mod order;
pub mod reports;

pub const CHECK: u32 = 1;
pub const BAL: u32 = 2;
pub const REG: u32 = 4;
pub const LISTS: u32 = 8;
pub const PRICES: u32 = 16;
pub const FLAT: u32 = 32;
pub const ALL: u32 = 63;

/// Names of all the commands
pub const COMMANDS: [&str; 7] = ["check", "balance", "register", "accounts", "payees", "commodities", "prices"];

/// Nothing that looks like a report
pub fn no_figures(cmd: &str, out: &Out) -> R {
    if cmd == "check" {
        if out.stdout.contains(" is OK") {
            return Err("check says OK and fails".to_string());
        }
        return Ok(());
    }
    if !out.stdout.trim().is_empty() {
        return Err(format!("{} failed after printing {:?}", cmd, out.stdout));
    }
    Ok(())
}

/// Runs the commands on a file that is expected to be rejected
pub fn expect_rejected(env: &mut Env, file: &str, what: u32, why: &str, extra: &[&str]) -> R {
    for (bit, cmd) in [
        (CHECK, "check"),
        (BAL, "balance"),
        (REG, "register"),
        (LISTS, "accounts"),
        (LISTS, "payees"),
        (LISTS, "commodities"),
        (PRICES, "prices"),
    ] {
        if what & bit == 0 {
            continue;
        }
        let mut args = vec![cmd, "-f", file];
        args.extend_from_slice(extra);
        let out = env.run(&args);
        if !out.refused() {
            return Err(format!("{} should be refused ({}), status {:?}", cmd, why, out.status));
        }
        no_figures(cmd, &out)?;
    }
    Ok(())
}

pub fn must_ok(cmd: &str, out: &Out) -> R {
    if !out.ok() {
        return Err(format!(
            "{} should succeed, status {:?}: {}",
            cmd,
            out.status,
            out.stderr.chars().take(500).collect::<String>()
        ));
    }
    Ok(())
}

/// Runs the commands on a file whose meaning is known, and compares
pub fn expect_meaning(env: &mut Env, file: &str, l: &L, what: u32, extra: &[&str]) -> R {
    let with = |v: &[&str]| -> Vec<String> {
        v.iter()
            .chain(extra.iter())
            .map(|x| x.to_string())
            .collect()
    };
    let all = Sel::default();
    if what & CHECK != 0 {
        let o = env.run(&with(&["check", "-f", file]));
        must_ok("check", &o)?;
        if !o.stdout.contains("OK") {
            return Err(format!("check does not say OK: {:?}", o.stdout));
        }
    }
    if what & BAL != 0 {
        let o = env.run(&with(&["bal", "-f", file]));
        must_ok("bal", &o)?;
        check_bal(l, &all, &BalOpts::default(), &o.stdout).map_err(|e| format!("bal: {}", e))?;
    }
    if what & FLAT != 0 {
        let o = env.run(&with(&["bal", "--flat", "-f", file]));
        must_ok("bal --flat", &o)?;
        let bo = BalOpts {
            flat: true,
            ..Default::default()
        };
        check_bal(l, &all, &bo, &o.stdout).map_err(|e| format!("bal --flat: {}", e))?;
    }
    if what & REG != 0 {
        let o = env.run(&with(&["reg", "-f", file]));
        must_ok("reg", &o)?;
        check_reg(l, &all, &o.stdout).map_err(|e| format!("reg: {}", e))?;
    }
    if what & LISTS != 0 {
        let o = env.run(&with(&["accounts", "-f", file]));
        must_ok("accounts", &o)?;
        check_list("accounts", &l.accounts, &o.stdout)?;
        let o = env.run(&with(&["payees", "-f", file]));
        must_ok("payees", &o)?;
        check_list("payees", &l.payees, &o.stdout)?;
        let o = env.run(&with(&["commodities", "-f", file]));
        must_ok("commodities", &o)?;
        check_list("commodities", &l.commodities, &o.stdout)?;
    }
    if what & PRICES != 0 {
        let o = env.run(&with(&["prices", "-f", file]));
        must_ok("prices", &o)?;
        check_prices(l, &o.stdout)?;
    }
    Ok(())
}

pub fn expect_file(env: &mut Env, file: &str, meaning: &Result<L, String>, what: u32, extra: &[&str]) -> R {
    match meaning {
        Ok(l) => expect_meaning(env, file, l, what, extra),
        Err(why) => expect_rejected(env, file, what, why, extra),
    }
}

/// The usual case: a journal, and what some commands have to say about it
pub fn journal_case(j: Journal, what: u32) -> Option<Case> {
    let t = text(&j);
    let key = t.clone();
    case(key, move |env| {
        let f = env.write("j.ledger", &t);
        expect_file(env, &f, &ledger(&j, false), what, &[])
    })
}

/// Balance and register of a journal with a selection
pub fn expect_reports(env: &mut Env, file: &str, l: &L, sel: &Sel, bal: Option<&BalOpts>, reg: bool) -> R {
    if let Some(bo) = bal {
        let mut a = vec!["bal".to_string(), "-f".to_string(), file.to_string()];
        a.extend(bo.args());
        a.extend(sel.args());
        if sums(l, sel).is_some() {
            let o = env.run(&a);
            must_ok("bal", &o)?;
            check_bal(l, sel, bo, &o.stdout).map_err(|e| format!("{}: {}", a.join(" "), e))?;
        }
    }
    if reg && sums(l, sel).is_some() {
        let mut a = vec!["reg".to_string(), "-f".to_string(), file.to_string()];
        a.extend(sel.args());
        let o = env.run(&a);
        must_ok("reg", &o)?;
        check_reg(l, sel, &o.stdout).map_err(|e| format!("{}: {}", a.join(" "), e))?;
    }
    Ok(())
}

pub fn txs(v: Vec<Txn>) -> Journal {
    v.into_iter().map(Item::Txn).collect()
}

pub const ASSUME: [&str; 4] = [
    "the reference model in /verif/mc/src/model.rs states the intended meaning",
    "the bounds of the enumerated spaces (DESIGN.md) are large enough to exhibit a violation",
    "in-process runs of run_app behave as the program does (revalidated with the real program on a subset of the cases)",
    "rustc, std, the regex crate and num are correct",
];

/// The last space of each property: entries of every kind together
fn together(mut v: Vec<Prop>) -> Vec<Prop> {
    let add: Vec<(&str, fn(&mut Ch) -> Option<Case>)> = vec![
        ("C01", features::c01),
        ("C02", features::c02),
        ("C03", features::c03),
        ("C04", features::c04),
        ("C05", features::c05),
        ("C06", features::c06),
        ("C07", features::c07),
        ("C08", features::c08),
        ("C13", features::c13),
        ("C14", features::c14),
        ("C17", features::c17),
        ("C18", features::c18),
    ];
    let each: Vec<(&str, &'static str, fn(&mut Ch) -> Option<Case>)> = vec![
        ("C01", "every entry with one posting changed", features::c01_each),
        ("C02", "every entry with one posting changed", features::c01_each),
        ("C03", "an assertion on every posting of every entry", features::c03_each),
        ("C14", "every entry with one posting changed", features::c14_each),
        ("C18", "a tag on every posting of every entry", features::c18_each),
    ];
    let large: Vec<(&str, fn(&mut Ch) -> Option<Case>)> = vec![
        ("C01", features::s_check),
        ("C02", features::s_fill),
        ("C03", features::s_assert),
        ("C04", features::s_bal),
        ("C05", features::s_reg),
        ("C06", features::s_query),
        ("C07", features::s_expr),
        ("C08", features::s_convert),
        ("C13", features::s_names),
        ("C14", features::s_auto),
        ("C17", features::s_lists),
        ("C18", features::s_tags),
    ];
    for p in v.iter_mut() {
        for (id, f) in &add {
            if p.id == *id {
                p.spaces.push(space("entries of every kind together", *f));
            }
        }
        for (id, f) in &large {
            if p.id == *id {
                p.spaces.push(space("one thing of every size", *f));
            }
        }
        for (id, name, f) in &each {
            if p.id == *id {
                p.spaces.push(space(name, *f));
            }
        }
    }
    v
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(balancing::props());
    v.extend(money::props());
    v.extend(exprs::props());
    v.extend(reports::props());
    v.extend(order::props());
    v.extend(files::props());
    v.extend(initfile::props());
    v.extend(damage::props());
    together(v)
}
