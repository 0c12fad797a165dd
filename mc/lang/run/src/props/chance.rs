//! What is drawn at random and how long it takes: the source of random numbers and the clock are
//! nondeterministic environments, handed to the checker.
use crate::lang;
use crate::model::{defs, of_value, Cell};
use mcrt::driver::Ctx;
use std::cell::Cell as C;
use std::time::Duration;

// ------ the clock ------
thread_local!(
    /// The time it is for this thread (ns), if it is stopped.
    static CLOCK: C<Option<u64>> = const { C::new(None) };
    /// How long each draw of a random number takes.
    static STEPS: C<[u64; 3]> = const { C::new([0; 3]) };
    static DRAWN: C<usize> = const { C::new(0) };
);
/// Every reading of a clock, by whatever means, comes here.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32 {
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    match CLOCK.try_with(|c| c.get()).ok().flatten() {
        Some(ns) => {
            *ts = [(ns / 1_000_000_000) as i64, (ns % 1_000_000_000) as i64];
            0
        }
        None => syscall(228, clk as i64, ts) as i32,
    }
}
fn tick() {
    let i = DRAWN.with(|d| d.replace(d.get() + 1));
    CLOCK.with(|c| c.set(c.get().map(|t| t + STEPS.with(|s| s.get()[i % 3]))));
}
/// Evaluates with the given draws; how many were made.
fn drawing(draws: &[f64], steps: [u64; 3], clock: Option<u64>, f: impl FnOnce() -> lang::R) -> (lang::R, usize) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            CLOCK.with(|c| c.set(None));
            fastrand::script(Vec::new(), None);
        }
    }
    let _off = Off;
    DRAWN.with(|d| d.set(0));
    STEPS.with(|s| s.set(steps));
    CLOCK.with(|c| c.set(clock));
    fastrand::script(draws.to_vec(), Some(tick));
    let r = f();
    let n = DRAWN.with(|d| d.get());
    (r, n)
}

fn num2(src: &str) -> lang::R {
    defs(|d| lang::eval_num(2.0, src, d))
}

// ------ random numbers ------
const DRAWS: [f64; 6] = [0.0, 1.0 - 1.0 / (1u64 << 53) as f64, 0.5, 1.0 / (1u64 << 53) as f64, 0.25, 0.9];
const ENDS: [f64; 9] = [0.0, 1.0, -1.0, 10.0, 0.1, -2.5, 5.0, 1e9, 0.3];
fn num(x: f64) -> String {
    format!("{x}")
}
/// The number which stands for a draw, up to rounding; the range may be laid out either way.
fn near(v: f64, f: f64, t: f64, r: f64) -> [bool; 2] {
    let tol = 8.0 * f64::EPSILON * f.abs().max(t.abs());
    let within = v >= f - tol && v <= t + tol;
    [within && (v - (f + r * (t - f))).abs() <= tol, within && (v - (t - r * (t - f))).abs() <= tol]
}
pub fn c45(ctx: &mut Ctx) {
    let nd = DRAWS.len() as u64;
    let ne = ENDS.len() as u64;
    // the ways in which the arguments are given: literals, or computed of the input
    let arg = |way: u64, x: f64| match way {
        0 => num(x),
        1 => format!("{{ + {} }}", num(x - 2.0)),
        _ => format!("{{ \\ {} }}", num(x)),
    };
    let val = |way: u64, x: f64| if way == 1 { 2.0 + (x - 2.0) } else { x };
    ctx.cases(
        "one number",
        4 * ne * ne * nd * 9,
        |i| format!("{} argument(s), from {} to {}, draw {}", i % 4, ENDS[(i / 4 % ne) as usize], ENDS[(i / 4 / ne % ne) as usize], DRAWS[(i / 4 / ne / ne % nd) as usize]),
        |i| {
            let args = i % 4;
            let (a, b) = (ENDS[(i / 4 % ne) as usize], ENDS[(i / 4 / ne % ne) as usize]);
            let r = DRAWS[(i / 4 / ne / ne % nd) as usize];
            let ways = i / 4 / ne / ne / nd;
            let (wa, wb) = (ways % 3, ways / 3);
            let (src, f, t) = match args {
                0 => ("rand".to_string(), 0.0, 1.0),
                1 => (format!("rand {}", arg(wb, b)), 0.0, val(wb, b)),
                2 => (format!("rand {} {}", arg(wa, a), arg(wb, b)), val(wa, a), val(wb, b)),
                // the number is one number, wherever it is used
                _ => (format!("rand {} {} | let $x | - $x", arg(wa, a), arg(wb, b)), val(wa, a), val(wb, b)),
            };
            let (got, drawn) = drawing(&[r], [0; 3], None, || num2(&src));
            let bad = |m: &str| Err(format!("{src} on 2: {m}: {}", lang::show(&got)));
            if f >= t {
                return match &got {
                    Err(_) => Ok(1),
                    Ok(_) => bad("no number lies between, but one is given"),
                };
            }
            let v = match got.as_ref().ok().map(of_value) {
                Some(Cell::Num(v)) => v,
                _ => return bad("not a number"),
            };
            if args == 3 {
                return if v == 0.0 && drawn == 1 { Ok(1) } else { bad(&format!("drawn {drawn} times, not one number")) };
            }
            if !near(v, f, t, r).contains(&true) {
                return bad(&format!("draw {r} of {f} to {t}"));
            }
            Ok(1)
        },
    );
    let max = ctx.pick(4u32, 6);
    let spans: Vec<(f64, f64)> = vec![(0.0, 1.0), (5.0, 10.0), (-1.0, 0.1), (-10.0, -2.5)];
    for len in 0..=max {
        let seqs = nd.pow(len);
        ctx.cases(
            &format!("{len} numbers"),
            seqs * spans.len() as u64 * 3,
            |i| format!("sequence {} of {len} draws, span {:?}", i % seqs, spans[(i / seqs) as usize % spans.len()]),
            |i| {
                let draws: Vec<f64> = (0..len).map(|k| DRAWS[(i % seqs / nd.pow(k) % nd) as usize]).collect();
                let (f, t) = spans[(i / seqs) as usize % spans.len()];
                let w = i / seqs / spans.len() as u64;
                let src = match w {
                    0 => format!("rand {} {} {len}", num(f), num(t)),
                    1 => format!("rand {} {} {}", arg(1, f), arg(1, t), arg(1, len as f64)),
                    _ => format!("range 0 {len} | append --'rand' {{ rand {} {} }} | pick 'rand'", num(f), num(t)),
                };
                let (f, t) = (val(w, f), val(w, t));
                // what is drawn beyond does not matter
                let mut script = draws.clone();
                script.push(0.125);
                let (got, _) = drawing(&script, [0; 3], None, || num2(&src));
                let bad = |m: String| Err(format!("{src} on 2, drawn {draws:?}: {m}: {}", lang::show(&got)));
                let rows = match got.as_ref().ok().map(of_value) {
                    Some(Cell::Tab(t)) => t,
                    _ => return bad("not a table".into()),
                };
                if rows.len() != len as usize + 1 || rows[0] != [Cell::Str("rand".into())] {
                    return bad(format!("not {len} rows below a header 'rand'"));
                }
                let mut way = [true; 2];
                for (k, r) in draws.iter().enumerate() {
                    match &rows[k + 1][..] {
                        [Cell::Num(v)] => {
                            let n = near(*v, f, t, *r);
                            way = [way[0] && n[0], way[1] && n[1]];
                        }
                        _ => return bad(format!("row {k} is not one number")),
                    }
                    if way == [false; 2] {
                        return bad(format!("row {k} is not draw {r} of {f} to {t}"));
                    }
                }
                Ok(1)
            },
        );
    }
    const BAD: [&str; 8] = ["rand 0 1 -1", "rand 0 1 1.5", "rand 1 0 3", "rand 1 1 0", "rand 0 1 2 3", "rand 'a'", "rand 0 1 { / 0 }", "rand #t #f"];
    ctx.cases("what is refused", BAD.len() as u64, |i| BAD[i as usize].into(), |i| {
        match drawing(&[0.5], [0; 3], None, || num2(BAD[i as usize])).0 {
            Err(_) => Ok(1),
            r => Err(format!("{} gives {}", BAD[i as usize], lang::show(&r))),
        }
    });
}

// ------ timing ------
const TIMES: [u64; 18] = [
    0, 1, 999, 1_000, 1_001, 500_000, 999_999, 1_000_000, 1_000_001, 1_001_000, 999_000_000, 999_999_999, 1_000_000_000, 1_000_000_001, 1_999_999_999, 60_000_000_000, 61_002_003_004, 3_600_000_000_000,
];
/// Programs with what is drawn before, within and after of what is timed.
const TIMED: [(&str, [usize; 3]); 9] = [
    ("benchmark rand", [0, 1, 0]),
    ("benchmark { rand 0 1 3 }", [0, 3, 0]),
    ("benchmark { \\ 3 }", [0, 0, 0]),
    ("rand | benchmark { + { rand } }", [1, 1, 0]),
    ("benchmark { + { rand } { rand } }", [0, 2, 0]),
    ("rand | benchmark rand | append --'z' { rand }", [1, 1, 1]),
    ("benchmark { rand 0 1 { + 0 } }", [0, 2, 0]),
    ("let { rand } $r | benchmark { rand | + $r }", [1, 1, 0]),
    ("benchmark { range 0 3 | append { rand } }", [0, 3, 0]),
];
pub fn c46(ctx: &mut Ctx) {
    let n = TIMES.len() as u64;
    let starts = [5_000_000_000u64, 5_999_999_999, 5_000_999_999];
    for (src, [pre, mid, post]) in TIMED {
      let draws = n.pow((pre + mid + post) as u32);
      let steps = |i: u64| [0, 1, 2].map(|k| if k < pre + mid + post { TIMES[(i / n.pow(k as u32) % n) as usize] } else { 0 });
      ctx.cases(
        src,
        draws * starts.len() as u64,
        |i| format!("{src} with draws of {:?} ns", steps(i)),
        |i| {
            let begin = starts[(i / draws) as usize];
            let steps = steps(i);
            let (got, drawn) = drawing(&[0.5], steps, Some(begin), || num2(src));
            let bad = |m: String| Err(format!("{src} on 2, with draws of {steps:?} ns: {m}: {}", lang::show(&got)));
            let rows = match got.as_ref().ok().map(of_value) {
                Some(Cell::Tab(t)) => t,
                _ => return bad("not a table".into()),
            };
            if drawn != pre + mid + post {
                return bad(format!("{drawn} numbers are drawn, not {}", pre + mid + post));
            }
            let t: u64 = (pre..pre + mid).map(|k| steps[k % 3]).sum();
            let want = [
                vec![Cell::Str("duration".into()), Cell::Str("seconds".into()), Cell::Str("milliseconds".into()), Cell::Str("microseconds".into())],
                vec![Cell::Str(format!("{:?}", Duration::from_nanos(t))), Cell::Num((t / 1_000_000_000) as f64), Cell::Num((t / 1_000_000 % 1000) as f64), Cell::Num((t / 1000 % 1000) as f64)],
            ];
            if rows.len() != 2 || rows.iter().zip(&want).any(|(r, w)| r.len() < 4 || r[..4] != w[..]) {
                return bad(format!("it took {t} ns, expected {want:?}"));
            }
            Ok(1)
        },
      );
    }
    const BAD: [&str; 3] = ["benchmark { range 0 3 | nth 5 { get i } }", "benchmark { get foo }", "benchmark"];
    ctx.cases("failures", BAD.len() as u64, |i| BAD[i as usize].into(), |i| match num2(BAD[i as usize]) {
        Err(_) => Ok(1),
        r => Err(format!("{} gives {}", BAD[i as usize], lang::show(&r))),
    });
}
