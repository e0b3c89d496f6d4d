//! Cases in child processes: for code that ends the process when it fails.
use crate::h::*;
use std::io::{BufRead, Write};
use std::process::{Command, Stdio};

/// Which cases this process runs: those numbered `k` modulo `n`, from `from` on.
#[derive(Clone, Copy, Debug)]
pub struct Share {
    pub k: usize,
    pub n: usize,
    pub from: usize,
}

pub fn share() -> Option<Share> {
    let args: Vec<String> = std::env::args().collect();
    let i = args.iter().position(|a| a == "--worker")?;
    let num = |j: usize| args.get(i + j).and_then(|s| s.parse().ok());
    Some(Share { k: num(1)?, n: num(2)?, from: num(3)? })
}

pub struct Cases<'a> {
    pub ctx: &'a Ctx,
    share: Share,
    next: usize,
    out: std::fs::File,
}

impl<'a> Cases<'a> {
    fn line(&mut self, s: String) {
        let _ = self.out.write_all(s.as_bytes());
    }
    /// The next case of the enumeration.
    pub fn case(&mut self, name: impl FnOnce() -> String, f: impl FnOnce(&str)) {
        let i = self.next;
        self.next += 1;
        if i % self.share.n != self.share.k || i < self.share.from || self.ctx.too_many() {
            return;
        }
        let name = name();
        if !self.ctx.want(&name) {
            return;
        }
        self.line(format!("@@B {} {}\n", i, name));
        if let Err(e) = guard(|| f(&name)) {
            self.ctx.violation(format!("{}/panic", self.ctx.prop), name.clone(), e);
        }
        let v = self.ctx.take_violations();
        if !v.is_empty() {
            self.line(format!("@@V {}\n", serde_json::json!({ "violations": v })));
        }
    }
}

/// Every case of `body`'s enumeration, in as many processes as there are cores. A process that
/// ends in the middle of a case is a violation; the ones left are run in another.
pub fn run(ctx: &Ctx, body: impl Fn(&mut Cases<'_>)) {
    if let Some(share) = share() {
        use std::os::unix::io::{AsRawFd, FromRawFd};
        // What the code under test prints goes nowhere.
        let out = unsafe { std::fs::File::from_raw_fd(dup_fd(1)) };
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
        redirect(null.as_raw_fd(), 1);
        let mut c = Cases { ctx, share, next: 0, out };
        body(&mut c);
        let e = ctx.export();
        c.line(format!("@@E {}\n", e));
        std::process::exit(0);
    }
    let exe = std::env::current_exe().expect("own path");
    let args: Vec<String> = std::env::args().skip(1).collect();
    let n = if ctx.only.is_some() { 1 } else { 8 };
    ctx.par(n, |k| {
        let mut from = 0;
        loop {
            let mut cmd = Command::new(&exe);
            cmd.args(&args).arg("--worker").arg(k.to_string()).arg(n.to_string()).arg(from.to_string());
            cmd.stdout(Stdio::piped()).stdin(Stdio::null());
            if std::env::var("MC_PANICS").is_err() {
                cmd.stderr(Stdio::null());
            }
            let mut child = cmd.spawn().expect("worker");
            let (mut last, mut done) = (None::<(usize, String)>, false);
            for l in std::io::BufReader::new(child.stdout.take().unwrap()).lines().map_while(Result::ok) {
                if let Some(r) = l.strip_prefix("@@B ") {
                    let mut it = r.splitn(2, ' ');
                    last = Some((it.next().unwrap().parse().unwrap(), it.next().unwrap_or("").to_string()));
                } else if let Some(r) = l.strip_prefix("@@V ") {
                    ctx.absorb(&serde_json::from_str(r).expect("worker's report"));
                } else if let Some(r) = l.strip_prefix("@@E ") {
                    ctx.absorb(&serde_json::from_str(r).expect("worker's report"));
                    done = true;
                }
            }
            let st = child.wait().expect("wait");
            if done {
                break;
            }
            match last {
                Some((i, name)) if i + 1 > from => {
                    ctx.violation(format!("{}/abort", ctx.prop), name, format!("the process ended ({}) in the middle of this case", st));
                    from = i + 1;
                }
                _ => panic!("a worker ended without reporting anything: {}", st),
            }
            if ctx.too_many() {
                break;
            }
        }
    });
}
