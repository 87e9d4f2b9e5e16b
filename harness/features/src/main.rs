//! Converts lines of standard input; the other half of check C27.
#[path = "../../src/serve.rs"]
mod serve;

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    std::thread::Builder::new().stack_size(8 << 20).spawn(|| {
        use std::io::{BufRead, Write};
        let mut out = std::io::stdout().lock();
        let mut s = serve::Server::new();
        for line in std::io::stdin().lock().lines() {
            let Ok(line) = line else { break };
            let r = s.answer(&serve::unesc(&line));
            if writeln!(out, "{}", serve::esc(&r)).and_then(|_| out.flush()).is_err() {
                break;
            }
        }
    }).unwrap().join().unwrap();
}
