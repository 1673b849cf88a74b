use crate::{Parameters, Role};
use actix::vx;
use structopt::StructOpt;

/// n arbitrary digits without a leading zero, and their value
fn number(n: usize) -> (String, usize) {
    let mut s = String::new();
    let mut v = 0;
    for i in 0..n {
        let d = vx::range((i == 0 && n > 1) as usize, 9);
        v = 10 * v + d;
        s.push((b'0' + d as u8) as char);
    }
    (s, v)
}
/// what the parameters must be
struct Want { n: [usize; 7], end: isize, host: String, score: Option<String>, contribution: String, explain: bool, correct: bool }
const NAMES: [(&str, &str); 7] = [("--pattern-length", "-p"), ("--latent", ""), ("--rate", ""), ("--threads", "-t"), ("--cluster-nodes", "-n"), ("--query-length", "-q"), ("--column-start-idx", "")];

fn option(args: &mut Vec<String>, long: &str, short: &str, form: usize, value: String) {
    match form {
        1 if !short.is_empty() => { args.push(short.to_string()); args.push(value); }
        2 => args.push(format!("{}={}", long, value)),
        _ => { args.push(long.to_string()); args.push(value); }
    }
}
/// adds the option
fn give(args: &mut Vec<String>, w: &mut Want, which: usize, form: usize, digits: usize) {
    match which {
        0..=6 => {
            let (s, v) = number(digits);
            w.n[which] = v;
            option(args, NAMES[which].0, NAMES[which].1, form, s);
        }
        7 | 8 => {
            let (s, v) = number(digits);
            w.end = if which == 8 { -(v as isize) } else { v as isize };
            option(args, "--column-end-idx", "", form, if which == 8 { format!("-{}", s) } else { s });
        }
        9 => { w.host = "192.168.3.20:1992".to_string(); option(args, "--local-host", "-l", form, w.host.clone()) }
        10 => { w.score = Some("out dir/score.csv".to_string()); option(args, "--score-output-path", "", form, w.score.clone().unwrap()) }
        11 => { w.contribution = "c.csv".to_string(); option(args, "--anomaly-contribution-output-path", "", form, w.contribution.clone()) }
        12 => { w.explain = true; args.push("--explainability".to_string()) }
        13 => { w.correct = true; args.push("--self-correction".to_string()) }
        _ => option(args, "--clustering", "", form, "kde".to_string()),
    }
}
const N: usize = 15;
fn judge(mut args: Vec<String>, w: Want) {
    let role = vx::choose(3);
    match role {
        0 => { args.push("main".to_string()); }
        1 => { args.push("main".to_string()); option(&mut args, "--data-path", "-d", vx::choose(3), "data/x 1.csv".to_string()); }
        _ => { args.push("sub".to_string()); option(&mut args, "--mainhost", "-h", vx::choose(3), "10.0.0.7:8123".to_string()); }
    }
    let p = Parameters::from_iter_safe(args);
    vx::check(p.is_ok(), 1);
    let p = p.unwrap();
    vx::check((p.pattern_length == w.n[0]) & (p.latent == w.n[1]) & (p.rate == w.n[2]), 2);
    vx::check((p.n_threads == w.n[3]) & (p.n_cluster_nodes == w.n[4]) & (p.query_length == w.n[5]), 2);
    vx::check((p.column_start == w.n[6]) & (p.column_end == w.end), 3);
    vx::check(p.local_host == w.host.parse().unwrap(), 4);
    vx::check((p.score_output_path == w.score) & (p.anomaly_contribution_output_path == w.contribution), 5);
    vx::check((p.explainability == w.explain) & (p.self_correction == w.correct), 6);
    match (role, &p.role) {
        (0, Role::Main { data_path }) => vx::check(data_path.is_none(), 7),
        (1, Role::Main { data_path }) => vx::check(data_path.as_deref() == Some("data/x 1.csv"), 7),
        (2, Role::Sub { mainhost }) => vx::check(*mainhost == "10.0.0.7:8123".parse().unwrap(), 7),
        _ => vx::check(false, 7),
    }
    // the main machine is recognised by its address
    let other = "10.0.0.7:8123".parse().unwrap();
    vx::check(p.is_main_addr(other) == (role == 2), 8);
    vx::check(p.is_main_addr(p.local_host) == (role != 2), 8);
    let mut near = if role == 2 { other } else { p.local_host };
    near.set_port(near.port() + 1 + vx::choose(2) as u16);
    vx::check(!p.is_main_addr(near), 8);
    let near = std::net::SocketAddr::from(([10, 0, 0, 8], if role == 2 { 8123 } else { p.local_host.port() }));
    vx::check(!p.is_main_addr(near), 8);
}
fn defaults() -> (Vec<String>, Want) {
    (vec!["s2gpp".to_string()], Want { n: [50, 16, 100, 8, 1, 75, 0], end: 0, host: "127.0.0.1:8000".to_string(), score: None, contribution: "anomaly-contribution.csv".to_string(), explain: false, correct: false })
}
// one option, in every form
vx::entry! { vh_one(digits, b, c, d) {
    let (mut args, mut w) = defaults();
    let which = vx::choose(N + 1);
    if which < N { give(&mut args, &mut w, which, vx::choose(3), digits); vx::cover(1); }
    if which == 8 { vx::cover(2); }
    judge(args, w);
} }
// every option at once, starting with any of them
vx::entry! { vh_all(digits, b, c, d) {
    let (mut args, mut w) = defaults();
    let first = vx::choose(N);
    for i in 0..N {
        let which = (first + i) % N;
        if which != 7 { give(&mut args, &mut w, which, (i + first) % 3, digits); }
    }
    judge(args, w);
    vx::cover(3);
} }
vx::entries!(vh_one, vh_all);
