//! Offline stand-in for multiexp 0.2: variable-time multi-scalar multiplication.
use ff::PrimeFieldBits;
use group::Group;
use zeroize::Zeroize;

fn digits<S: PrimeFieldBits>(s: &S) -> Vec<u8> {
    let mut out = Vec::with_capacity(64);
    let mut cur = 0u8;
    let mut n = 0;
    for b in s.to_le_bits().iter().map(|b| *b) {
        cur |= (b as u8) << n;
        n += 1;
        if n == 4 {
            out.push(cur);
            cur = 0;
            n = 0;
        }
    }
    if n > 0 {
        out.push(cur);
    }
    out
}

/// Straus interleaving with 4-bit windows.
pub fn multiexp<G: Group>(pairs: &[(G::Scalar, G)]) -> G
where
    G::Scalar: PrimeFieldBits + Zeroize,
{
    let ds: Vec<Vec<u8>> = pairs.iter().map(|(s, _)| digits(s)).collect();
    let tabs: Vec<Vec<G>> = pairs
        .iter()
        .map(|(_, p)| {
            let mut t = Vec::with_capacity(15);
            t.push(*p);
            for i in 1..15 {
                let q: G = t[i - 1] + p;
                t.push(q);
            }
            t
        })
        .collect();
    let n = ds.iter().map(|d| d.len()).max().unwrap_or(0);
    let mut acc = G::identity();
    for w in (0..n).rev() {
        if w + 1 != n {
            acc = acc.double().double().double().double();
        }
        for (d, t) in ds.iter().zip(&tabs) {
            if w < d.len() && d[w] != 0 {
                acc += t[d[w] as usize - 1];
            }
        }
    }
    acc
}

pub fn multiexp_vartime<G: Group>(pairs: &[(G::Scalar, G)]) -> G
where
    G::Scalar: PrimeFieldBits + Zeroize,
{
    multiexp(pairs)
}
