//! C25: the expert 3BV sampler counts every layout once and follows the distribution of 3BV.
use ms_toollib::sample_3BVs_exp;
use oracle::stat::*;
use oracle::*;

fn sampler(ctx: &mut Ctx) {
    let (x, y) = match ctx.rng.below(4) {
        0 => (0, 0),
        1 => (15, 29),
        _ => (ctx.rng.below(16), ctx.rng.below(30)),
    };
    let n = match ctx.rng.below(4) {
        0 => ctx.rng.below(40),
        _ => ctx.rng.range(200, 2000),
    };
    let Some(h) = ctx.guard("sample_3BVs_exp", || format!("{x} {y} {n}"), || sample_3BVs_exp(x, y, n)) else { return };
    let total: usize = h.iter().sum();
    ctx.check(total == n / 16 * 16, "total", || format!("{total} layouts recorded for n = {n}"));
    ctx.check(h[0] == 0, "zero", || "3BV 0 recorded".into());
    ctx.ev("library_layouts", total as u64);
    for (v, k) in h.iter().enumerate() {
        if *k > 0 {
            ctx.add("lib", v, *k as f64);
        }
    }
    ctx.seen(mix(n as u64, (x * 100 + y) as u64));
    ctx.sample(|| format!("start ({x},{y}) n {n}: {total} layouts"));
}
/// the same experiment with this check's own layouts and 3BV
fn reference(ctx: &mut Ctx) {
    for _ in 0..40 {
        let (x, y) = match ctx.rng.below(4) {
            0 => (0, 0),
            1 => (15, 29),
            _ => (ctx.rng.below(16), ctx.rng.below(30)),
        };
        let mut cells: Vec<usize> = (0..480).filter(|i| *i != x * 30 + y).collect();
        ctx.rng.shuffle(&mut cells);
        let mut m = vec![vec![false; 30]; 16];
        cells[..99].iter().for_each(|i| m[i / 30][i % 30] = true);
        ctx.add("ref", bbbv(&numbered(&m)), 1.0);
        ctx.ev("reference_layouts", 1);
    }
}
fn finish(a: &Agg, ctx: &mut Ctx) {
    let z = vec![];
    let l = a.sums.get("lib").unwrap_or(&z);
    let r = a.sums.get("ref").unwrap_or(&z);
    let (nl, nr) = (l.iter().sum::<f64>(), r.iter().sum::<f64>());
    if nl < 2000.0 || nr < 2000.0 {
        return;
    }
    // bins of 3BV holding at least 40 reference layouts
    let mut bins: Vec<(f64, f64)> = vec![];
    let mut cur = (0.0, 0.0);
    for v in 0..l.len().max(r.len()) {
        cur.0 += l.get(v).unwrap_or(&0.0);
        cur.1 += r.get(v).unwrap_or(&0.0);
        if cur.1 + cur.0 >= 160.0 {
            bins.push(cur);
            cur = (0.0, 0.0);
        }
    }
    let last = bins.last_mut().unwrap();
    last.0 += cur.0;
    last.1 += cur.1;
    let (k1, k2) = ((nr / nl).sqrt(), (nl / nr).sqrt());
    let x: f64 = bins.iter().map(|b| (k1 * b.0 - k2 * b.1).powi(2) / (b.0 + b.1)).sum();
    let zz = chi2_z(x, bins.len() as f64 - 1.0);
    let mean = |h: &[f64], n: f64| h.iter().enumerate().map(|(i, x)| i as f64 * x).sum::<f64>() / n;
    let (ml, mr) = (mean(l, nl), mean(r, nr));
    let var = r.iter().enumerate().map(|(i, x)| (i as f64 - mr).powi(2) * x).sum::<f64>() / nr;
    let zm = (ml - mr) / (var / nl + var / nr).sqrt();
    ctx.sample(|| format!("{nl} library and {nr} reference layouts, mean 3BV {ml:.2} and {mr:.2} (z {zm:.2}), shape z {zz:.2} over {} bins", bins.len()));
    ctx.check(zz < Z_LIMIT && zm.abs() < Z_LIMIT, "distribution", || format!("3BV distribution is off: mean {ml:.3} instead of {mr:.3} (z {zm:.1}), shape z {zz:.1}"));
}
fn main() {
    engine::main(Spec {
        id: "C25",
        rule: "sampler calls over start cells and sizes, compared with an independent sample of layouts and 3BV; distinct by start cell and size",
        stages: vec![
            Stage { name: "sampler", quick: 240, thorough: 6000, f: sampler },
            Stage { name: "reference", quick: 5000, thorough: 120000, f: reference },
        ],
        finish: Some(finish),
        assumptions: &["n is rounded down to a multiple of the 16 workers", "start cells of the 16x30 board, drawn alike for both samples", "distributions are rejected at 7 standard deviations"],
        must_see: &["library_layouts", "reference_layouts"],
    })
}
