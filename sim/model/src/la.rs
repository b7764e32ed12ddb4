//! Small, independent dense linear algebra for the reference model (row-major n x n).

pub fn mat_vec(a: &[f64], x: &[f64]) -> Vec<f64> {
    let n = x.len();
    (0..n).map(|i| (0..n).map(|j| a[i * n + j] * x[j]).sum()).collect()
}
pub fn norm(x: &[f64]) -> f64 {
    let m = x.iter().fold(0f64, |a, b| a.max(b.abs()));
    if m == 0.0 || !m.is_finite() {
        return m;
    }
    m * x.iter().map(|v| (v / m) * (v / m)).sum::<f64>().sqrt()
}

/// Cyclic Jacobi. Returns (eigenvalues, eigenvectors as columns, row-major).
pub fn eig(a: &[f64], n: usize) -> (Vec<f64>, Vec<f64>) {
    let mut m = a.to_vec();
    // symmetrise
    for i in 0..n {
        for j in 0..i {
            let v = 0.5 * (m[i * n + j] + m[j * n + i]);
            m[i * n + j] = v;
            m[j * n + i] = v;
        }
    }
    let mut v = vec![0.0; n * n];
    for i in 0..n {
        v[i * n + i] = 1.0;
    }
    if m.iter().any(|x| !x.is_finite()) {
        return (vec![f64::NAN; n], v);
    }
    for _ in 0..100 {
        let mut changed = false;
        for p in 0..n {
            for q in p + 1..n {
                let apq = m[p * n + q];
                let (app, aqq) = (m[p * n + p], m[q * n + q]);
                if apq == 0.0 || apq.abs() <= 1e-18 * (app.abs() * aqq.abs()).sqrt() {
                    continue;
                }
                changed = true;
                let theta = (aqq - app) / (2.0 * apq);
                let t = if theta.is_infinite() {
                    0.0
                } else {
                    theta.signum() / (theta.abs() + (theta * theta + 1.0).sqrt())
                };
                let t = if theta == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (akp, akq) = (m[k * n + p], m[k * n + q]);
                    m[k * n + p] = c * akp - s * akq;
                    m[k * n + q] = s * akp + c * akq;
                }
                for k in 0..n {
                    let (apk, aqk) = (m[p * n + k], m[q * n + k]);
                    m[p * n + k] = c * apk - s * aqk;
                    m[q * n + k] = s * apk + c * aqk;
                }
                m[p * n + q] = 0.0;
                m[q * n + p] = 0.0;
                for k in 0..n {
                    let (vkp, vkq) = (v[k * n + p], v[k * n + q]);
                    v[k * n + p] = c * vkp - s * vkq;
                    v[k * n + q] = s * vkp + c * vkq;
                }
            }
        }
        if !changed {
            break;
        }
    }
    ((0..n).map(|i| m[i * n + i]).collect(), v)
}

/// B * diag(f(d)) * B^T
pub fn compose(v: &[f64], d: &[f64]) -> Vec<f64> {
    let n = d.len();
    let mut r = vec![0.0; n * n];
    for i in 0..n {
        for j in 0..n {
            r[i * n + j] = (0..n).map(|k| v[i * n + k] * d[k] * v[j * n + k]).sum();
        }
    }
    r
}

/// If nalgebra itself, called as the library calls it, returns exactly these eigenvalues of `c`:
/// the largest residual |C v - l v| of its eigenpairs, relative to the largest eigenvalue. It pairs
/// eigenvalues with the wrong eigenvectors now and then.
pub fn dependency_residual(c: &[f64], n: usize, eig: &[f64]) -> f64 {
    let m = nalgebra::DMatrix::from_row_slice(n, n, c);
    let e = match nalgebra::SymmetricEigen::try_new(m.clone(), 1e-20, 100_000) {
        Some(e) => e,
        None => return 0.0,
    };
    let top = e.eigenvalues.amax();
    if eig.len() != n || (0..n).any(|i| !((eig[i] - e.eigenvalues[i]).abs() <= 1e-12 * e.eigenvalues[i].abs())) {
        return 0.0;
    }
    (0..n).map(|k| {
        let v = e.eigenvectors.column(k).normalize();
        (&m * &v - e.eigenvalues[k] * &v).norm() / top
    }).fold(0.0, f64::max)
}
