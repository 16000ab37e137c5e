//! Little-endian multi-limb unsigned arithmetic.

/// out = a * b; `out` must have a.len() + b.len() limbs.
pub fn mul(a: &[u64], b: &[u64], out: &mut [u64]) {
    out.iter_mut().for_each(|o| *o = 0);
    for (i, x) in a.iter().enumerate() {
        if *x == 0 {
            continue;
        }
        let mut c = 0u128;
        for (j, y) in b.iter().enumerate() {
            c += *x as u128 * *y as u128 + out[i + j] as u128;
            out[i + j] = c as u64;
            c >>= 64;
        }
        out[i + b.len()] = c as u64;
    }
}

/// q = a / d, returns remainder.
pub fn div_small(a: &[u64], d: u64, q: &mut [u64]) -> u64 {
    let mut r = 0u64;
    for i in (0..a.len()).rev() {
        let n = ((r as u128) << 64) | a[i] as u128;
        if n >> 64 == 0 {
            q[i] = n as u64 / d;
            r = n as u64 % d;
        } else {
            q[i] = (n / d as u128) as u64;
            r = (n % d as u128) as u64;
        }
    }
    r
}

fn len(a: &[u64]) -> usize {
    a.iter().rposition(|l| *l != 0).map_or(0, |p| p + 1)
}

/// q = floor(n / d), d != 0, Knuth's algorithm D. q.len() >= n.len()
pub fn div(n: &[u64], d: &[u64], q: &mut [u64]) {
    q.iter_mut().for_each(|l| *l = 0);
    let (ln, ld) = (len(n), len(d));
    assert!(ld > 0);
    if ln < ld {
        return;
    }
    if ld == 1 {
        div_small(&n[..ln], d[0], &mut q[..ln]);
        return;
    }
    let s = d[ld - 1].leading_zeros();
    let mut v = [0u64; 8];
    let mut u = [0u64; 9];
    for i in (0..ld).rev() {
        v[i] = d[i] << s;
        if s > 0 && i > 0 {
            v[i] |= d[i - 1] >> (64 - s);
        }
    }
    if s > 0 {
        u[ln] = n[ln - 1] >> (64 - s);
    }
    for i in (0..ln).rev() {
        u[i] = n[i] << s;
        if s > 0 && i > 0 {
            u[i] |= n[i - 1] >> (64 - s);
        }
    }
    for j in (0..=ln - ld).rev() {
        let num = ((u[j + ld] as u128) << 64) | u[j + ld - 1] as u128;
        let mut qhat = num / v[ld - 1] as u128;
        let mut rhat = num % v[ld - 1] as u128;
        while qhat >> 64 != 0
            || qhat * v[ld - 2] as u128
                > ((rhat << 64) | u[j + ld - 2] as u128)
        {
            qhat -= 1;
            rhat += v[ld - 1] as u128;
            if rhat >> 64 != 0 {
                break;
            }
        }
        let mut borrow = 0i128;
        let mut carry = 0u128;
        for i in 0..ld {
            let p = qhat * v[i] as u128 + carry;
            carry = p >> 64;
            let t = u[i + j] as i128 - borrow - (p as u64) as i128;
            u[i + j] = t as u64;
            borrow = (t < 0) as i128;
        }
        let t = u[j + ld] as i128 - borrow - carry as i128;
        u[j + ld] = t as u64;
        if t < 0 {
            qhat -= 1;
            let mut c = 0u128;
            for i in 0..ld {
                c += u[i + j] as u128 + v[i] as u128;
                u[i + j] = c as u64;
                c >>= 64;
            }
            u[j + ld] = (u[j + ld] as u128 + c) as u64;
        }
        q[j] = qhat as u64;
    }
}

/// floor(sqrt(n)), n of 4 limbs
pub fn isqrt(n: &[u64; 4]) -> [u64; 4] {
    let l = len(n);
    if l == 0 {
        return [0; 4];
    }
    let bits = 64 * l as u32 - n[l - 1].leading_zeros();
    // initial guess >= sqrt(n): 2^ceil(bits/2)
    let b = (bits + 1) / 2;
    let mut x = [0u64; 4];
    x[(b / 64) as usize] = 1 << (b % 64);
    loop {
        // y = (x + n / x) / 2
        let mut q = [0u64; 4];
        div(n, &x, &mut q);
        let mut y = [0u64; 4];
        let mut c = 0u128;
        for i in 0..4 {
            c += x[i] as u128 + q[i] as u128;
            y[i] = c as u64;
            c >>= 64;
        }
        for i in 0..4 {
            let hi = if i < 3 { y[i + 1] } else { c as u64 };
            y[i] = (y[i] >> 1) | (hi << 63);
        }
        if y.iter().rev().cmp(x.iter().rev()) != std::cmp::Ordering::Less {
            return x;
        }
        x = y;
    }
}
