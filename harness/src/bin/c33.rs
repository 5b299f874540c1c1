//! C33: the C interface answers as the library does, and its memory is sound.
use harness::remote::*;
use harness::*;
use ms_toollib::*;
use oracle::solver::*;
use oracle::*;

fn any_board(ctx: &mut Ctx, max: usize) -> B {
    let (r, c) = (ctx.rng.range(1, max), ctx.rng.range(1, max));
    if ctx.rng.chance(0.3) {
        return shaped_board(&mut ctx.rng, r, c);
    }
    let n = (r * c) as f64 * ctx.rng.f64() * 0.6;
    random_board(&mut ctx.rng, r, c, n as usize)
}

fn session(ctx: &mut Ctx, to: usize) {
    let mut t = Talk::with(to);
    // what C holds: slot, size of the layout asked for, where the first answer is
    let mut held: Vec<(usize, usize)> = vec![];
    let mut layouts: Vec<(usize, [usize; 5])> = vec![];
    let mut same: Vec<(usize, usize)> = vec![];
    let mut log: Vec<String> = vec![];
    let mut free: Vec<usize> = (0..24).collect();
    for _ in 0..ctx.rng.range(1, 60) {
        match ctx.rng.below(10) {
            0 | 1 => {
                let b = any_board(ctx, 30);
                log.push(format!("3BV {}x{}", b.len(), b[0].len()));
                t.f("cal3BV", vec![b.v()], Some(cal_bbbv(&b).v()));
                ctx.ev("layouts_measured", 1);
            }
            2 | 3 if !free.is_empty() => {
                let (r, c) = match ctx.rng.below(4) { 0 => (1, ctx.rng.range(1, 20)), 1 => (16, 30), _ => (ctx.rng.range(1, 30), ctx.rng.range(1, 30)) };
                let n = ctx.rng.below(r * c);
                let (x, y) = (ctx.rng.below(r), ctx.rng.below(c));
                let k = free.swap_remove(ctx.rng.below(free.len()));
                log.push(format!("laymine({r},{c},{n},{x},{y}) as {k}"));
                layouts.push((t.len(), [r, c, n, x, y]));
                held.push((k, t.len()));
                t.f("laymine", vec![k.v(), r.v(), c.v(), n.v(), x.v(), y.v()], None);
                ctx.ev("layouts_generated", 1);
            }
            4 | 5 if !free.is_empty() => {
                let max = *ctx.rng.pick(&[3usize, 5, 8, 9]);
                let gen = gen_visible(&mut ctx.rng, max, max, false);
                if !affordable(&model(&gen.game), 40, 4000) {
                    continue;
                }
                let mut g = gen.game.clone();
                if quiet(|| mark_board(&mut g)).map(|r| r.is_err()).unwrap_or(true) {
                    continue;
                }
                let n = gen.mines as f64;
                let Ok(Ok(w)) = quiet(|| cal_possibility_onboard(&g, n)) else { continue };
                let k = free.swap_remove(ctx.rng.below(free.len()));
                log.push(format!("chances of {} as {k}", fmt_board(&g)));
                held.push((k, t.len()));
                t.f("cal_possibility_onboard", vec![k.v(), g.v(), n.v()], Some(w.v()));
                ctx.ev("probability_tables", 1);
            }
            6 | 7 if !held.is_empty() => {
                let (k, at) = *ctx.rng.pick(&held);
                log.push(format!("read {k}"));
                same.push((at, t.len()));
                t.f("show", vec![k.v()], None);
                ctx.ev("read_again", 1);
            }
            _ if !held.is_empty() => {
                let (k, at) = held.swap_remove(ctx.rng.below(held.len()));
                same.push((at, t.len()));
                t.f("show", vec![k.v()], None);
                log.push(format!("free {k}"));
                t.f("free", vec![k.v()], Some(V::N));
                free.push(k);
                ctx.ev("freed", 1);
            }
            _ => (),
        }
    }
    ctx.rng.shuffle(&mut held);
    for (k, at) in held {
        same.push((at, t.len()));
        t.f("show", vec![k.v()], None);
        t.f("free", vec![k.v()], Some(V::N));
        ctx.ev("freed", 1);
    }
    let last = t.len();
    t.f("balance", vec![], None);
    let inp = || log.join("; ");
    let Some(ans) = t.run(ctx, inp) else { return };
    for (at, a) in &layouts {
        let [r, c, n, x, y] = *a;
        let b = ans[*at].board();
        let ok = b.len() == r && b.iter().all(|l| l.len() == c) && mine_count(&b) == n && consistent(&b) && b[x][y] >= 0;
        if !ctx.check(ok, "layout", || format!("laymine({r}, {c}, {n}, {x}, {y}) gives {}: {}", ans[*at].brief(), inp())) {
            return;
        }
        ctx.seen(hash_board(&b));
    }
    for (a, b) in &same {
        if !ctx.check(ans[*a] == ans[*b], "changed while held", || format!("what was {} is later {}: {}", ans[*a].brief(), ans[*b].brief(), inp())) {
            return;
        }
    }
    let left = ans[last].list();
    if !ctx.check(left[1].us() == 0, "given back wrongly", || format!("{} blocks were given back with a size or alignment they do not have: {}", left[1].us(), inp())) {
        return;
    }
    ctx.check(left[0].int() == 0, "not given back", || format!("{} bytes are still held after everything was freed: {}", left[0].int(), inp()));
    ctx.ev(["sessions_in_c", "sessions_with_checked_memory"][to], 1);
    ctx.sample(inp);
}
fn client(ctx: &mut Ctx) {
    session(ctx, 0)
}
fn memory(ctx: &mut Ctx) {
    session(ctx, 1)
}

fn main() {
    engine::main(Spec {
        id: "C33",
        rule: "random sequences of calls and frees, by a C program built with AddressSanitizer and in a process whose allocator checks every block; distinct by layout received",
        stages: vec![Stage { name: "client", quick: 4000, thorough: 150000, f: client }, Stage { name: "memory", quick: 4000, thorough: 150000, f: memory }],
        finish: None,
        assumptions: &["boards passed in are rectangular and consistent (the interface ends the process on others)"],
        must_see: &["layouts_measured", "layouts_generated", "probability_tables", "read_again", "freed", "sessions_in_c", "sessions_with_checked_memory"],
    })
}
