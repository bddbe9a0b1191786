//! Finite spaces decoded from an index, so that they can be enumerated completely and in parallel.

use std::sync::Arc;

pub struct Gen<T> {
    pub len: u64,
    f: Arc<dyn Fn(u64) -> T + Send + Sync>,
}

impl<T> Clone for Gen<T> {
    fn clone(&self) -> Self {
        Gen {
            len: self.len,
            f: self.f.clone(),
        }
    }
}

impl<T: 'static> Gen<T> {
    pub fn new(len: u64, f: impl Fn(u64) -> T + Send + Sync + 'static) -> Self {
        Gen {
            len,
            f: Arc::new(f),
        }
    }

    pub fn get(&self, i: u64) -> T {
        debug_assert!(i < self.len);
        (self.f)(i)
    }

    pub fn map<U: 'static>(&self, g: impl Fn(T) -> U + Send + Sync + 'static) -> Gen<U> {
        let f = self.f.clone();
        Gen::new(self.len, move |i| g(f(i)))
    }

    pub fn x<U: 'static>(&self, other: &Gen<U>) -> Gen<(T, U)> {
        let (a, b) = (self.clone(), other.clone());
        let n = b.len;
        Gen::new(a.len * b.len, move |i| (a.get(i / n), b.get(i % n)))
    }

    pub fn or(&self, other: &Gen<T>) -> Gen<T> {
        let (a, b) = (self.clone(), other.clone());
        Gen::new(a.len + b.len, move |i| {
            if i < a.len {
                a.get(i)
            } else {
                b.get(i - a.len)
            }
        })
    }

    /// For each element, all those of the space made from it.
    pub fn sum<U: 'static>(&self, f: impl Fn(T) -> Gen<U>) -> Gen<U> {
        let parts: Vec<Gen<U>> = (0..self.len).map(|i| f(self.get(i))).collect();
        let mut ends = vec![];
        let mut n = 0;
        for p in &parts {
            n += p.len;
            ends.push(n);
        }
        Gen::new(n, move |i| {
            let at = ends.partition_point(|e| *e <= i);
            parts[at].get(i - (ends[at] - parts[at].len))
        })
    }

    /// All sequences of exactly `n` elements.
    pub fn exact(&self, n: u32) -> Gen<Vec<T>> {
        let a = self.clone();
        Gen::new(a.len.pow(n), move |mut i| {
            (0..n)
                .map(|_| {
                    let x = a.get(i % a.len);
                    i /= a.len;
                    x
                })
                .collect()
        })
    }

    /// All sequences of at most `n` elements, shorter first.
    pub fn upto(&self, n: u32) -> Gen<Vec<T>> {
        let mut g = self.exact(0);
        for k in 1..=n {
            g = g.or(&self.exact(k));
        }
        g
    }

    pub fn opt(&self) -> Gen<Option<T>> {
        one_with(|| None).or(&self.map(Some))
    }
}

pub fn one_with<T: 'static>(f: impl Fn() -> T + Send + Sync + 'static) -> Gen<T> {
    Gen::new(1, move |_| f())
}

pub fn of<T: Clone + Send + Sync + 'static>(v: impl Into<Vec<T>>) -> Gen<T> {
    let v: Vec<T> = v.into();
    Gen::new(v.len() as u64, move |i| v[i as usize].clone())
}

pub fn range(n: u64) -> Gen<u64> {
    Gen::new(n, |i| i)
}

/// All permutations of `v`.
pub fn perms<T: Clone + Send + Sync + 'static>(v: Vec<T>) -> Gen<Vec<T>> {
    let n: u64 = (1..=v.len() as u64).product();
    Gen::new(n, move |mut i| {
        let mut left = v.clone();
        let mut out = Vec::new();
        for k in (1..=v.len() as u64).rev() {
            out.push(left.remove((i % k) as usize));
            i /= k;
        }
        out
    })
}

/// All subsets of size `k` of `v`, in order.
pub fn subsets<T: Clone + Send + Sync + 'static>(v: &[T], k: usize) -> Vec<Vec<T>> {
    if k == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        for mut rest in subsets(&v[i + 1..], k - 1) {
            rest.insert(0, v[i].clone());
            out.push(rest);
        }
    }
    out
}

/// All interleavings of the lists; each keeps its order.
pub fn interleaved<T: Clone + Send + Sync + 'static>(lists: Vec<Vec<T>>) -> Gen<Vec<T>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        let mut end = true;
        for i in 0..left.len() {
            if left[i] > 0 {
                end = false;
                left[i] -= 1;
                cur.push(i as u8);
                go(left, cur, out);
                cur.pop();
                left[i] += 1;
            }
        }
        if end {
            out.push(cur.clone());
        }
    }
    let mut orders = vec![];
    go(&mut lists.iter().map(Vec::len).collect(), &mut vec![], &mut orders);
    Gen::new(orders.len() as u64, move |i| {
        let mut at = vec![0; lists.len()];
        orders[i as usize]
            .iter()
            .map(|l| {
                let l = *l as usize;
                at[l] += 1;
                lists[l][at[l] - 1].clone()
            })
            .collect()
    })
}
