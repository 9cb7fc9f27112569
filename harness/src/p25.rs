//! P25: the command line runs exactly what was typed.

use crate::check;
use crate::engine::*;
use crate::gen::*;
use crate::query::*;
use crate::vals::*;
use crate::world::*;
use mentat::{Binding, CacheDirection, QueryResults, Queryable, StructuredMap};
use mentat_cli::command_parser::{command, Command};
use std::process::{Command as Proc, Stdio};

pub static PROP: Prop = Prop {
    id: "P25",
    rule: "Lines built from the command words and their aliases, right and wrong counts and kinds of arguments (paths, words with punctuation and non-ASCII, EDN complete, incomplete and with comments), any kind of space around them, glued to each other, with characters dropped, doubled and replaced; each is parsed and compared with an independent reading of the grammar: the command word up to a space or bracket, then exactly its arguments. For one case in forty, a session of transactions and queries over a random schema, broken over several lines between tokens, is typed into the command line as a child process, and the tables it prints compared with the answers of a store given the same transactions. Non-trivial: a line that is a command with arguments, or a line refused for its arguments; a session with a printed row.",
    quick_cases: 12000,
    thorough_cases: 150000,
    run,
    fixed,
    known: no_fixed,
    assumptions: &["EDN commands run to the end of the line, whatever follows the opening bracket", "what a printed value looks like is Display of the value, strings quoted"],
};

const EDN: [(&str, u8); 7] = [("q", 0), ("query", 0), ("eq", 1), ("explain_query", 1), ("query_prepared", 2), ("t", 3), ("transact", 3)];

/// The command a line is, if it is one.
fn reference(line: &str) -> Option<Command> {
    let line = line.trim_start();
    let mut it = line.chars();
    if it.next() != Some('.') {
        return None;
    }
    let rest = it.as_str();
    for (w, k) in EDN.iter() {
        if let Some(after) = rest.strip_prefix(w) {
            let arg = after.trim_start();
            if arg.starts_with('[') || arg.starts_with('{') {
                let arg = arg.to_string();
                return Some(match k {
                    0 => Command::Query(arg),
                    1 => Command::QueryExplain(arg),
                    2 => Command::QueryPrepared(arg),
                    _ => Command::Transact(arg),
                });
            }
        }
    }
    let end = rest.find(char::is_whitespace).unwrap_or(rest.len());
    let (word, rest) = rest.split_at(end);
    let args: Vec<String> = rest.split_whitespace().map(|s| s.to_string()).collect();
    let n = args.len();
    match word {
        "help" => Some(Command::Help(args)),
        "import" | "i" if n == 1 => Some(Command::Import(args[0].clone())),
        "timer" if n == 1 && args[0] == "on" => Some(Command::Timer(true)),
        "timer" if n == 1 && args[0] == "off" => Some(Command::Timer(false)),
        "cache" if n == 2 => {
            let d = match args[1].as_str() {
                "forward" => CacheDirection::Forward,
                "reverse" => CacheDirection::Reverse,
                "both" => CacheDirection::Both,
                _ => return None,
            };
            Some(Command::Cache(args[0].clone(), d))
        }
        "open_encrypted" if n == 2 => Some(Command::OpenEncrypted(args[0].clone(), args[1].clone())),
        "open" if n == 1 => Some(Command::Open(args[0].clone())),
        "close" if n == 0 => Some(Command::Close),
        "exit" | "e" if n == 0 => Some(Command::Exit),
        "schema" if n == 0 => Some(Command::Schema),
        "sync" if n == 1 || n == 2 => Some(Command::Sync(args)),
        _ => None,
    }
}

const WORDS: [&str; 19] = ["cache", "close", "exit", "e", "help", "import", "i", "open", "open_encrypted", "query", "q", "explain_query", "eq", "query_prepared", "schema", "sync", "timer", "transact", "t"];
const NOT_WORDS: [&str; 14] = ["", "foo", "opens", "invalid", "ident", "ex", "exi", "tx", "transac", "query_", "op", "Open", "té", "closed"];
const ARGS: [&str; 24] = [
    "on", "off", "forward", "reverse", "both", "my.db", "/path/to/my.db", ":a/b", ".help", "help", "é/ö.db", "\"quoted\"", "a=b", "[x", "{}", "#x", "on,", "onward", "bothx", "https://example.com/api/", "316ea470-ce35-4adf-9c61-e0de6e289c59", "-", ";", "\\",
];
const EDNS: [&str; 12] = [
    "[:find ?x :where [?x :foo/bar ?y]]",
    "{}",
    "[]",
    "[[:db/add \"s\" :db/ident :foo/uuid]]",
    "[:find ?x",
    "{:a \"b c\"",
    "[1] ; comment",
    "[1 2] 3",
    "[\"a\nb\"]",
    "[ \"]\" ",
    ":find ?x",
    "(1)",
];
const SPACES: [&str; 8] = [" ", " ", " ", "  ", "\t", "\n", " \u{a0}", "\r\n"];

fn line(s: &mut Src) -> String {
    let mut o = String::new();
    for _ in 0..s.size(0, 1) {
        o.push_str(*s.pick(&SPACES));
    }
    if !s.chance(1, 25) {
        o.push('.');
    }
    let word: &str = if s.chance(1, 8) { *s.pick(&NOT_WORDS) } else { *s.pick(&WORDS) };
    o.push_str(word);
    let edn = EDN.iter().any(|(w, _)| *w == word);
    if s.chance(1, 12) {
        o.push_str(*s.pick(&ARGS));
    }
    let right = match word {
        "help" => s.size(0, 3),
        "import" | "i" | "open" | "timer" => 1,
        "cache" | "open_encrypted" => 2,
        "sync" => s.size(1, 2),
        _ if edn => 1,
        _ => 0,
    };
    let n = if s.chance(1, 5) { s.size(0, 4) } else { right };
    for i in 0..n {
        if !(edn && s.chance(1, 5)) && !s.chance(1, 30) {
            o.push_str(*s.pick(&SPACES));
        }
        let arg: String = if edn && !s.chance(1, 8) {
            s.pick(&EDNS).to_string()
        } else if word == "timer" && !s.chance(1, 4) {
            s.pick(&["on", "off"]).to_string()
        } else if word == "cache" && i == 1 && !s.chance(1, 4) {
            s.pick(&["forward", "reverse", "both"]).to_string()
        } else {
            s.pick(&ARGS).to_string()
        };
        o.push_str(&arg);
    }
    if s.chance(1, 4) {
        o.push_str(*s.pick(&SPACES));
    }
    if s.chance(1, 6) {
        // Damage.
        let mut cs: Vec<char> = o.chars().collect();
        for _ in 0..s.size(1, 3) {
            let at = s.idx(cs.len() + 1);
            match s.below(3) {
                0 if at < cs.len() => {
                    cs.remove(at);
                }
                1 if at < cs.len() => {
                    let c = cs[at];
                    cs.insert(at, c);
                }
                _ => {
                    let c = *s.pick(&['.', ' ', '[', '{', 'e', 'q', 't', 'i', 'x', '\u{2003}', '"', ';', '\0', '_']);
                    cs.insert(at, c);
                }
            }
        }
        o = cs.into_iter().collect();
    }
    o
}

fn parse_line(l: &str, ctx: &mut Ctx) -> CaseResult {
    ctx.note(format!("{:?}", l));
    let want = reference(l);
    let got = guarded(|| command(l).map_err(|e| e.to_string()))?;
    match (&got, &want) {
        (Ok(g), Some(w)) => check!(g == w, "{:?} was parsed to {:?} instead of {:?}", l, g, w),
        (Ok(g), None) => return Err(format!("{:?} was parsed to {:?}, which it doesn't say", l, g)),
        (Err(e), Some(w)) => return Err(format!("{:?} was refused ({}) instead of being parsed to {:?}", l, e, w)),
        (Err(e), None) => {
            check!(!e.is_empty(), "{:?} was refused without a message", l);
            let word: String = l.trim_start().chars().skip(1).take_while(|c| !c.is_whitespace()).collect();
            if WORDS.contains(&word.as_str()) {
                ctx.label("refused for its arguments");
                ctx.nontrivial = true;
            } else {
                ctx.label("no command");
            }
        }
    }
    if let Ok(g) = &got {
        match g {
            Command::Query(t) | Command::QueryExplain(t) | Command::QueryPrepared(t) | Command::Transact(t) => {
                let whole = edn::parse::value(t).is_ok();
                check!(g.is_complete() == whole, "{:?} is complete: {} though its argument is whole: {}", g, g.is_complete(), whole);
                ctx.label(if whole { "EDN command" } else { "incomplete EDN command" });
                ctx.nontrivial = true;
            }
            Command::Close | Command::Exit | Command::Schema => {
                check!(g.is_complete(), "{:?} is incomplete", g);
                ctx.label("command without arguments")
            }
            _ => {
                check!(g.is_complete(), "{:?} is incomplete", g);
                ctx.label("command with arguments");
                ctx.nontrivial = true;
            }
        }
        // What starts up is echoed as it could have been typed.
        match g {
            Command::Cache(..) | Command::Help(..) | Command::Sync(..) | Command::Timer(..) => {}
            _ => {
                let o = g.output();
                let again = command(&o).map_err(|e| format!("the echo {:?} of {:?} is refused: {}", o, l, e))?;
                check!(again == *g, "the echo {:?} of {:?} is {:?} instead of {:?}", o, l, again, g);
            }
        }
    }
    Ok(())
}

// ---- sessions ----

fn show(b: &Binding) -> String {
    fn map(m: &StructuredMap) -> String {
        let v: Vec<String> = m.0.iter().map(|(k, v)| format!("{} {}", k, show(v))).collect();
        format!("{{{}}}", v.join(", "))
    }
    match b {
        Binding::Scalar(v) => match v {
            core_traits::TypedValue::String(s) => format!("{:?}", s.as_str()),
            core_traits::TypedValue::Boolean(b) => b.to_string(),
            core_traits::TypedValue::Double(d) => d.to_string(),
            core_traits::TypedValue::Instant(i) => i.to_string(),
            core_traits::TypedValue::Keyword(k) => k.to_string(),
            core_traits::TypedValue::Long(n) | core_traits::TypedValue::Ref(n) => n.to_string(),
            core_traits::TypedValue::Uuid(u) => u.to_string(),
        },
        Binding::Vec(v) => format!("[{}]", v.iter().map(show).collect::<Vec<_>>().join(", ")),
        Binding::Map(m) => map(m),
    }
}

/// Runs of spaces as one.
fn squeeze(s: &str) -> String {
    s.split(' ').filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" ")
}

/// Where a token ends and a space or comma follows, outside strings.
fn breaks(t: &str) -> Vec<usize> {
    let mut out = vec![];
    let (mut in_s, mut esc) = (false, false);
    for (i, c) in t.char_indices() {
        if in_s {
            if esc {
                esc = false;
            } else if c == '\\' {
                esc = true;
            } else if c == '"' {
                in_s = false;
            }
        } else if c == '"' {
            in_s = true;
        } else if c == ' ' || c == ',' {
            out.push(i);
        }
    }
    out
}

fn typed(s: &mut Src, word: &str, text: &str) -> String {
    let mut o = format!(".{}{}", word, if s.chance(1, 6) { "" } else { " " });
    // Text within #inst and the like must stay together.
    let at: Vec<usize> = breaks(text).into_iter().filter(|i| !text[..*i].ends_with("#inst") && !text[..*i].ends_with("#uuid") && !text[..*i].ends_with("#f") && !text[..*i].ends_with("#instmicros") && !text[..*i].ends_with("#instmillis")).collect();
    let mut last = 0;
    for i in at {
        if s.chance(1, 4) {
            o.push_str(&text[last..i]);
            o.push_str(*s.pick(&["\n", " \n", "\n\n", "\n  ", " ; :done]\n"]));
            last = i + 1;
        }
    }
    o.push_str(&text[last..]);
    o
}

struct Block {
    head: String,
    rows: Vec<String>,
    /// Everything is ordered.
    exact: bool,
}

fn session(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut w = World::mem()?;
    let mut input = String::new();
    let mut txs: Vec<i64> = vec![];
    let mut blocks: Vec<Block> = vec![];
    let defs = gen_schema(s, 2, 6);
    let schema = crate::model::tx_edn(&schema_ents(&defs));
    input.push_str(&typed(s, "t", &schema));
    input.push('\n');
    w.install(&defs, ctx)?;
    txs.push(w.store.last_tx_id());
    let mut g = TxGen::new(&defs);
    g.retract_pct = 10;
    for _ in 0..s.size(2, 6) {
        if s.chance(2, 5) {
            let t = if s.chance(1, 6) { g.tx(s, &w.m) } else { g.ok_tx(s, &w.m) };
            let word = *s.pick(&["t", "transact"]);
            let line = typed(s, word, &crate::model::tx_edn(&t));
            ctx.note(line.clone());
            input.push_str(&line);
            input.push('\n');
            if let Some(e) = w.transact(&t)? {
                txs.push(e.tx);
            }
        } else {
            let db = Db::new(&w.m);
            let ents = g.user_ents(&w.m);
            let mut qg = QGen::new(&db, ents);
            qg.input_pct = 0;
            let mut q = match qg.query(s, 1, 3) {
                Some(q) => q,
                None => continue,
            };
            q.shape = s.pick(&[Shape::Rel, Shape::Rel, Shape::Coll, Shape::Tuple, Shape::Scalar]).clone();
            if let Shape::Coll | Shape::Scalar = q.shape {
                q.find.truncate(1);
            }
            for x in q.find_vars() {
                let asc = s.bool();
                q.order.push((x, asc));
            }
            let mut text = q.text();
            if s.chance(1, 4) {
                let refs: Vec<usize> = q.find_vars().into_iter().filter(|x| qg.ty[*x] == bit(Vt::Ref)).collect();
                if let Some(x) = refs.first() {
                    let (f, rest) = text.split_at(text.find(" :where").unwrap());
                    text = format!("{}{}", f.replacen(&default_name(*x), &format!("(pull {} [:db/id :db/ident {}])", default_name(*x), defs[0].ident), 1), rest);
                    ctx.label("printed map");
                }
            }
            let answer = w.store.q_once(text.as_str(), None);
            // The times of transactions differ.
            if let Ok(out) = &answer {
                let now = chrono::Utc::now() - chrono::Duration::hours(1);
                let text = format!("{} {:?}", text, out.results);
                if (now.timestamp() / 3600..now.timestamp() / 3600 + 3).any(|h| text.contains(&mentat_time(h * 3600).format("%Y-%m-%dT%H:").to_string())) {
                    continue;
                }
            }
            let word = *s.pick(&["q", "query", "query_prepared"]);
            let line = typed(s, word, &text);
            ctx.note(line.clone());
            input.push_str(&line);
            input.push('\n');
            if let Ok(out) = answer {
                let cols: Vec<String> = out.spec.columns().map(|e| e.to_string()).collect();
                let row = |bs: &[Binding]| squeeze(&format!("{}|", bs.iter().map(|b| format!("| {} ", show(b))).collect::<String>()));
                let rows: Vec<String> = match &out.results {
                    QueryResults::Scalar(b) => b.iter().map(|b| row(&[b.clone()])).collect(),
                    QueryResults::Tuple(b) => b.iter().map(|b| row(b)).collect(),
                    QueryResults::Coll(bs) => bs.iter().map(|b| row(&[b.clone()])).collect(),
                    QueryResults::Rel(rr) => rr.rows().map(|r| row(r)).collect(),
                };
                blocks.push(Block { head: squeeze(&format!("{}|", cols.iter().map(|c| format!("| {} ", c)).collect::<String>())), rows, exact: true });
            }
        }
    }
    input.push_str(*s.pick(&[".exit\n", ".e\n", "", ".help\n.e\n.q [:find ?x :where [?x :db/ident]]\n"]));
    let file = ctx.dir().join("session");
    std::fs::write(&file, &input).map_err(es)?;
    let exe = std::env::current_exe().map_err(es)?;
    let out = Proc::new("timeout")
        .arg("60")
        .arg(exe)
        .arg("repl")
        .arg("--no-tty")
        .env("HOME", ctx.dir())
        .stdin(Stdio::from(std::fs::File::open(&file).map_err(es)?))
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .output()
        .map_err(es)?;
    check!(out.status.code() == Some(0), "the session ended with {:?}: {}", out.status.code(), clip_line(&String::from_utf8_lossy(&out.stderr)));
    let text = strip(&String::from_utf8_lossy(&out.stdout));
    let mut lines = text.lines().filter(|l| !l.trim().is_empty()).peekable();
    let mut got_txs = vec![];
    let mut got: Vec<Block> = vec![];
    while let Some(l) = lines.next() {
        if l.starts_with("TxReport") {
            let id: String = l.split("tx_id: ").nth(1).unwrap_or("").chars().take_while(|c| c.is_ascii_digit()).collect();
            got_txs.push(id.parse::<i64>().map_err(|e| format!("{}: {:?}", e, l))?);
        } else if l.starts_with('|') {
            let mut b = Block { head: squeeze(l), rows: vec![], exact: true };
            let dashes = lines.next().unwrap_or("");
            check!(dashes.starts_with("---"), "{:?} under the head {:?}", dashes, b.head);
            loop {
                match lines.next() {
                    Some(l) if l.starts_with("---") => break,
                    Some(l) => b.rows.push(squeeze(l)),
                    None => return Err(format!("the table {:?} doesn't end", b.head)),
                }
            }
            got.push(b);
        }
        // Help, and what the query engine says, are anything else.
    }
    check!(got_txs == txs, "transactions {:?} were reported instead of {:?}", got_txs, txs);
    check!(got.len() == blocks.len(), "{} tables were printed instead of {}: {}", got.len(), blocks.len(), clip_line(&String::from_utf8_lossy(&out.stderr)));
    for (g, w) in got.iter().zip(&blocks) {
        check!(g.head == w.head, "a table has the head {:?} instead of {:?}", g.head, w.head);
        let sorted = |r: &[String]| {
            let mut v = r.to_vec();
            v.sort();
            v
        };
        let same = if w.exact { g.rows == w.rows } else { sorted(&g.rows) == sorted(&w.rows) };
        check!(same, "the table {:?} has the rows {:?} instead of {:?}", g.head, g.rows, w.rows);
        if !w.rows.is_empty() {
            ctx.nontrivial = true;
            ctx.label("table printed");
        }
    }
    ctx.label("session");
    Ok(())
}

fn mentat_time(secs: i64) -> chrono::DateTime<chrono::Utc> {
    use chrono::TimeZone;
    chrono::Utc.timestamp_opt(secs, 0).unwrap()
}

/// Without colours and prompts.
fn strip(t: &str) -> String {
    let mut o = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in &mut it {
                if d == 'm' {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o.replace("mentat=> ", "").replace("mentat.> ", "")
}

fn run(s: &mut Src, ctx: &mut Ctx, _tier: &Tier) -> CaseResult {
    if s.chance(1, 40) {
        return session(s, ctx);
    }
    for _ in 0..20 {
        let l = line(s);
        parse_line(&l, ctx)?;
    }
    Ok(())
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    vec![
        ("words glued to arguments", |c| {
            for l in &[".invalid", ".ident foo", ".helpfoo", ".openfile", ".timeron", ".cache:a/b both", ".synchronize x", ".open_encryptedx y", ".importx", ".closed"] {
                parse_line(l, c)?;
            }
            Ok(())
        }),
        ("timer off", |c| parse_line(".timer off", c)),
        ("trailing arguments", |c| {
            for l in &[".import my file.edn", ".timer on off", ".timer  on ", ".timer online", ".cache :a/b both sides", ".cache :a/b bothsides", ".cache :a/b"] {
                parse_line(l, c)?;
            }
            Ok(())
        }),
    ]
}

