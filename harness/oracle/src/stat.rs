//! Distribution tests with thresholds far beyond chance (false alarm odds below 1e-9 per test).

/// chi-square statistic of observed counts against expected counts
pub fn chi2(obs: &[f64], exp: &[f64]) -> f64 {
    obs.iter().zip(exp).map(|(o, e)| (o - e) * (o - e) / e).sum()
}

/// Wilson-Hilferty: z score of a chi-square value with d degrees of freedom
pub fn chi2_z(x: f64, d: f64) -> f64 {
    let t = (x / d).powf(1.0 / 3.0);
    (t - (1.0 - 2.0 / (9.0 * d))) / (2.0 / (9.0 * d)).sqrt()
}

/// z above which a distribution is rejected
pub const Z_LIMIT: f64 = 7.0;

/// all k-subsets of 0..n as sorted bit masks
pub fn subsets(n: usize, k: usize) -> Vec<u32> {
    (0u32..1 << n).filter(|b| b.count_ones() as usize == k).collect()
}

pub fn binom(n: usize, k: usize) -> f64 {
    if k > n {
        return 0.0;
    }
    let mut r = 1.0;
    for i in 0..k {
        r = r * (n - i) as f64 / (i + 1) as f64;
    }
    r.round()
}
