//! Reference determinants and structured families of matrices with known determinant.
use crate::ring::Gf;

/// Signed sum over permutations (dynamic programming over column sets; only ring operations, no division).
pub fn leibniz(m: &[Vec<i128>]) -> i128 {
    leibniz_mod(m, i128::MAX)
}
pub fn leibniz_mod(m: &[Vec<i128>], p: i128) -> i128 {
    let n = m.len();
    let mut d = vec![0i128; 1 << n];
    d[0] = 1 % p;
    for s in 1usize..1 << n {
        let row = s.count_ones() as usize - 1;
        let mut sum = 0;
        for j in 0..n {
            if s >> j & 1 == 1 {
                let greater = (s >> (j + 1)).count_ones();
                let t = m[row][j] * d[s & !(1 << j)] % p;
                sum = if greater % 2 == 0 { sum + t } else { sum - t } % p;
            }
        }
        d[s] = if p == i128::MAX { sum } else { sum.rem_euclid(p) };
    }
    d[(1 << n) - 1]
}
/// The same on a small fixed array over Z/P (hot path of the exhaustive enumerations).
pub fn leibniz_gf<const P: u64>(m: &[[u64; 6]; 6], n: usize) -> u64 {
    let mut d = [0u64; 64];
    d[0] = 1;
    for s in 1usize..1 << n {
        let row = s.count_ones() as usize - 1;
        let mut sum = 0;
        for j in 0..n {
            if s >> j & 1 == 1 {
                let t = m[row][j] * d[s & !(1 << j)];
                sum += if (s >> (j + 1)).count_ones() % 2 == 0 { t } else { P * P - t };
            }
        }
        d[s] = sum % P;
    }
    d[(1 << n) - 1]
}

/// The `k`-th permutation of 0..n.
pub fn permutation(n: usize, mut k: u64) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..n).collect();
    (0..n)
        .map(|i| {
            let f: u64 = (1..(n - i) as u64).product();
            pool.remove(((k / f) % (n - i) as u64) as usize)
        })
        .collect()
}
pub fn sign(p: &[usize]) -> i64 {
    let mut s = 1;
    for i in 0..p.len() {
        for j in i + 1..p.len() {
            if p[i] > p[j] {
                s = -s;
            }
        }
    }
    s
}

pub const P: u64 = 1_000_003;
pub type F = Gf<P>;

/// L * Perm * U with L unit lower and U upper triangular (Bruhat form): the leading principal minors of the product are
/// zero exactly where those of the permutation are.  `zero`: which diagonal entry of U is zero.  `fill` 0: L and U
/// dense; 1: only U; 2: only L; 3: both diagonal.  Returns the matrix and its determinant.
pub fn lpu(perm: &[usize], zero: Option<usize>, fill: u32, seed: u64) -> (Vec<Vec<F>>, F) {
    let n = perm.len();
    let val = |a: u64, b: u64| Gf::<P>((a * 7919 + b * 104_729 + a * b * 31 + seed * 65_537 + a * a * b * 3 + 17) % (P - 1) + 1);
    let l = |i: usize, j: usize| match i.cmp(&j) {
        std::cmp::Ordering::Equal => Gf(1),
        std::cmp::Ordering::Less => Gf(0),
        _ if fill == 0 || fill == 2 => val(i as u64 + 1, j as u64 + 50),
        _ => Gf(0),
    };
    let u = |i: usize, j: usize| {
        if i == j {
            if zero == Some(i) {
                Gf(0)
            } else {
                val(i as u64 + 3, 99)
            }
        } else if i < j && fill <= 1 {
            val(i as u64 + 100, j as u64 + 7)
        } else {
            Gf(0)
        }
    };
    let m: Vec<Vec<F>> = (0..n)
        .map(|i| {
            (0..n)
                .map(|j| {
                    let mut s = Gf(0);
                    for k in 0..=i {
                        s += l(i, k) * u(perm[k], j);
                    }
                    s
                })
                .collect()
        })
        .collect();
    let mut d = F::of(sign(perm));
    for i in 0..n {
        d *= u(i, i);
    }
    (m, d)
}

/// Permutations worth trying on large sizes: identity, every adjacent transposition, every (0, k) and (k, n-1)
/// transposition, every cyclic shift, the reversal.
pub fn perms_of(n: usize) -> Vec<Vec<usize>> {
    let id: Vec<usize> = (0..n).collect();
    let mut r = vec![id.clone()];
    for k in 1..n {
        for (a, b) in [(k - 1, k), (0, k), (k - 1, n - 1)] {
            let mut p = id.clone();
            p.swap(a, b);
            r.push(p);
        }
        let mut p = id.clone();
        p.rotate_left(k);
        r.push(p);
    }
    let mut p = id;
    p.reverse();
    r.push(p);
    r.sort();
    r.dedup();
    r
}

/// Determinant over the large prime field, by elimination with row exchanges.
pub fn det_elim(m: &[Vec<F>]) -> F {
    let mut a = m.to_vec();
    let n = a.len();
    let mut d = Gf(1);
    for i in 0..n {
        match (i..n).find(|&p| a[p][i].0 != 0) {
            None => return Gf(0),
            Some(p) => {
                if p != i {
                    a.swap(p, i);
                    d = -d;
                }
            }
        }
        d *= a[i][i];
        let r = a[i][i].inv();
        for j in i + 1..n {
            let f = a[j][i] * r;
            if f.0 != 0 {
                for k in i..n {
                    let s = a[i][k] * f;
                    a[j][k] -= s;
                }
            }
        }
    }
    d
}
pub fn minor<T: Clone>(m: &[Vec<T>], i: usize, j: usize) -> Vec<Vec<T>> {
    let mut r = m.to_vec();
    r.remove(i);
    for row in &mut r {
        row.remove(j);
    }
    r
}

/// Digits of `i` in base P as a square array.
pub fn digits<const P: u64>(n: usize, mut i: u64) -> [[u64; 6]; 6] {
    let mut m = [[0; 6]; 6];
    for a in 0..n {
        for b in 0..n {
            m[a][b] = i % P;
            i /= P;
        }
    }
    m
}
/// Number of n x n matrices over Z/P.
pub fn count<const P: u64>(n: usize) -> u64 {
    P.pow((n * n) as u32)
}

/// The families of `lpu` that a driver chooses from: every permutation up to size `full`, the ones of `perms` above;
/// zeros on the diagonal up to size `zeros`.
pub fn pick_lpu(ctx: &mut crate::Ctx, n: usize, full: usize, fills: usize, perms: fn(usize) -> Vec<Vec<usize>>, zeros: usize) -> (Vec<Vec<F>>, F, String) {
    let perm = if n <= full {
        permutation(n, ctx.choose((1..=n).product()) as u64)
    } else {
        let ps = perms(n);
        ps[ctx.choose(ps.len())].clone()
    };
    let zero = match if n <= zeros { ctx.choose(n + 1) } else { 0 } {
        0 => None,
        k => Some(k - 1),
    };
    let fill = ctx.choose(fills) as u32;
    let (m, d) = lpu(&perm, zero, fill, 0);
    if n <= 6 {
        let z: Vec<Vec<i128>> = m.iter().map(|r| r.iter().map(|x| x.0 as i128).collect()).collect();
        assert_eq!(leibniz_mod(&z, P as i128), d.0 as i128, "harness: reference determinants disagree");
    }
    assert_eq!(det_elim(&m), d, "harness: reference determinants disagree");
    (m, d, format!("permutation {:?} zero {:?} fill {}", perm, zero, fill))
}
/// Identity and adjacent transpositions: a single leading minor is zero.
pub fn adjacent(n: usize) -> Vec<Vec<usize>> {
    let id: Vec<usize> = (0..n).collect();
    let mut r = vec![id.clone()];
    for k in 1..n {
        let mut p = id.clone();
        p.swap(k - 1, k);
        r.push(p);
    }
    r
}
