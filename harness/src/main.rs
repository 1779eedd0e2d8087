//! Native replay: each input line is `name p0,p1,.. hexbytes`, each output line is
//! `ok <covers> <obs>` | `assume` | `fail <message>`.
use std::io::{BufRead, Write};
use wzh::nd::imp::{AssumeFailed, Run, RUN};

fn main() {
    let table = wzh::table();
    let last = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l2 = last.clone();
    std::panic::set_hook(Box::new(move |i| {
        *l2.lock().unwrap() = i.to_string().replace('\n', " ");
    }));
    let stdout = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split(' ').collect();
        let name = f[0];
        let params: Vec<u64> = f[1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let hex = f.get(2).copied().unwrap_or("");
        let input: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        let h = table.iter().find(|t| t.0 == name).expect("harness").1;
        RUN.with(|r| *r.borrow_mut() = Run { input, params, ..Default::default() });
        let res = std::panic::catch_unwind(h);
        let out = match res {
            Ok(()) => RUN.with(|r| {
                let r = r.borrow();
                let j = |v: &Vec<u64>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
                let mut c = r.covers.clone();
                c.sort();
                c.dedup();
                format!("ok {} {} {}", r.pos, j(&c), j(&r.obs))
            }),
            Err(e) if e.is::<AssumeFailed>() => "assume".to_string(),
            Err(_) => format!("fail {}", last.lock().unwrap()),
        };
        let mut o = stdout.lock();
        writeln!(o, "\n@@ {}", out).unwrap();
        o.flush().unwrap();
    }
}
