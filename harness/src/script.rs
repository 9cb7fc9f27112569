//! A tiny shell for looking at things by hand: lines `t TX`, `q QUERY`, `c :attr f|r|b`, `#...`.
use mentat::{CacheDirection, Queryable, Store};
use std::io::BufRead;

pub fn run(path: &str) {
    let mut st = Store::open(path).unwrap();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        if l.len() < 2 || l.starts_with('#') {
            continue;
        }
        println!("> {}", l);
        let a = &l[2..];
        match &l[..1] {
            "t" => match st.transact(a) {
                Ok(r) => println!("{:?}", r),
                Err(e) => println!("error {}", e),
            },
            "q" => match st.q_once(a, None) {
                Ok(r) => println!("{:?}", r.results),
                Err(e) => println!("error {}", e),
            },
            "x" => match st.q_explain(a, None) {
                Ok(mentat::QueryExplanation::ExecutionPlan { query, .. }) => println!("{} {:?}", query.sql, query.args),
                Ok(_) => println!("no plan"),
                Err(e) => println!("error {}", e),
            },
            "c" => {
                let mut w = a.split(' ');
                let k = crate::vals::keyword(w.next().unwrap());
                let d = match w.next() {
                    Some("f") => CacheDirection::Forward,
                    Some("r") => CacheDirection::Reverse,
                    _ => CacheDirection::Both,
                };
                println!("{:?}", st.cache(&k, d).map_err(|e| e.to_string()))
            }
            _ => println!("?"),
        }
    }
}
