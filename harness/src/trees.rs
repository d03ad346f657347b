//! C04, C05, C10: neighbour searches, vantage-point trees, partitions
use crate::common::*;
use cres::neighbour_search::{NaiveNeighbourSearch, NeighbourSearch, NeighbourSearchAlgo, TreeSearch};
use cres::partition::{VPBisection, VPTreePartition};
use cres::vptree::VPTree;

/// a metric on indices given by a table of exactly representable distances
#[derive(Clone, Debug)]
pub struct Table {
    n: usize,
    d: Vec<f64>,
    kind: &'static str,
}

impl Distance<usize> for Table {
    fn distance(&self, a: &usize, b: &usize) -> N64 {
        n64(self.d[a * self.n + b])
    }
}

/// metrics with many ties, duplicates, equality cases of the triangle inequality
pub fn metric(r: &mut Rng, n: usize) -> Table {
    let kind = *r.pick(&["line", "grid1", "gridmax", "discrete", "ultra", "graph", "pseudo", "wide", "star", "real", "euclid"]);
    let mut d = vec![0.; n * n];
    let s = *r.pick(&[2i64, 4, 10, 1000]);
    let pts: Vec<[i64; 3]> = (0..n).map(|_| [r.range(0, s), r.range(0, s), r.range(0, s)]).collect();
    let reals: Vec<[f64; 3]> = (0..n).map(|_| [r.f(), r.f(), r.f()]).collect();
    let rad: Vec<i64> = (0..n).map(|_| r.range(0, 3)).collect();
    for i in 0..n {
        for j in 0..n {
            let (p, q) = (pts[i], pts[j]);
            let l1 = (p[0] - q[0]).abs() + (p[1] - q[1]).abs();
            d[i * n + j] = match kind {
                "line" => (p[0] - q[0]).abs() as f64,
                "grid1" => l1 as f64,
                "gridmax" => (p[0] - q[0]).abs().max((p[1] - q[1]).abs()).max((p[2] - q[2]).abs()) as f64,
                "discrete" => if i == j { 0. } else { 1. },
                "ultra" => {
                    // position of the highest differing bit
                    (64 - ((p[0] ^ q[0]) as u64).leading_zeros()) as f64
                }
                "pseudo" => (p[0] / 2 - q[0] / 2).abs() as f64,
                "wide" => ((p[0] - q[0]).abs() as f64) * 1024.,
                // distinct points at the ends of rays of integer length
                "star" => if i == j { 0. } else { (rad[i] + rad[j]) as f64 },
                "euclid" => {
                    (0..3).map(|k| (reals[i][k] - reals[j][k]).powi(2)).sum::<f64>().sqrt()
                }
                // exact multiples of 2^-20
                "real" => ((reals[i][0] * 1048576.).round() - (reals[j][0] * 1048576.).round()).abs() / 1048576.,
                _ => if i == j { 0. } else { (1 + (pts[i.min(j)][0] + 3 * pts[i.max(j)][1]) % 5) as f64 },
            };
        }
    }
    if kind == "graph" && n <= 64 {
        // shortest paths
        for k in 0..n {
            for i in 0..n {
                for j in 0..n {
                    let x = d[i * n + k] + d[k * n + j];
                    if x < d[i * n + j] {
                        d[i * n + j] = x;
                    }
                }
            }
        }
    } else if kind == "graph" {
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    d[i * n + j] = d[i * n + j].min(2.).max(1.);
                }
            }
        }
    }
    Table { n, d, kind }
}

fn check_list(t: &Table, point: usize, max: f64, got: &[(usize, f64)], who: &str) -> Result<(), String> {
    let mut want: Vec<(f64, usize)> = (0..t.n).filter(|&i| i != point).map(|i| (t.d[point * t.n + i], i)).filter(|x| x.0 <= max).collect();
    want.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut seen = vec![false; t.n];
    for (k, &(i, d)) in got.iter().enumerate() {
        ensure(i < t.n && i != point, || format!("{who}: neighbour {i} of point {point}"))?;
        ensure(!seen[i], || format!("{who}: neighbour {i} of {point} found twice"))?;
        seen[i] = true;
        ensure(d == t.d[point * t.n + i], || format!("{who}: distance of {i} from {point} given as {d}, it is {}", t.d[point * t.n + i]))?;
        ensure(k < want.len() && d == want[k].0, || {
            format!("{who}: neighbour number {k} of {point} is {i} at {d}, expected distance {:?}", want.get(k).map(|w| w.0))
        })?;
    }
    ensure(got.len() == want.len(), || format!("{who}: {} neighbours of {point} within {max}, expected {}", got.len(), want.len()))
}

pub fn c04(c: &mut Ctx) {
    let total = c.n(500);
    let mut k = 0;
    while c.more() && k < total {
        k += 1;
        let mut r = c.rng.fork();
        let n = if k % 125 == 7 { 990 + r.below(30) } else if k % 20 == 3 { 40 + r.below(80) } else { 1 + r.below(14) };
        let t = metric(&mut r, n);
        let max = match r.below(5) {
            0 => f64::MAX,
            1 => 0.,
            2 => *r.pick(&t.d),
            3 => 1.,
            _ => *r.pick(&t.d) * 0.75,
        };
        // "euclid" distances are rounded: limits on the edge of the triangle inequality are not decided there
        let euclid = t.kind == "euclid";
        let queries: Vec<usize> = if n > 200 { (0..6).map(|_| r.below(n)).collect() } else { (0..n).collect() };
        let desc = if n <= 20 { format!("max {max:e} {t:?}") } else { format!("max {max:e} {} metric on {n} points, VERIF_SEED={} case {k}", t.kind, c.seed) };
        let max = if euclid { f64::MAX } else { max };
        c.case(&desc, || {
            let collect = |it: &mut dyn Iterator<Item = (usize, N64)>| -> Vec<(usize, f64)> {
                it.take(n + 1).map(|(i, d)| (i, d.into())).collect()
            };
            let run = |who: &str, f: &dyn Fn(usize) -> Vec<(usize, f64)>| -> Result<(), String> {
                for &q in &queries {
                    check_list(&t, q, max, &f(q), who)?;
                }
                Ok(())
            };
            let par = TreeSearch::new_with_dist(n, &t, n64(max));
            run("tree search", &|q| collect(&mut (&par).nearest(&q)))?;
            let naive = NaiveNeighbourSearch::new_with_dist(n, &t, n64(max));
            if n <= 200 {
                run("naive search", &|q| collect(&mut (&naive).nearest(&q)))?;
            }
            let seq = VPTree::from_iter_with_dist(0..n, &t).with_max_dist(n64(max));
            run("sequential tree", &|q| collect(&mut seq.nearest_in(&q)))?;
            // a tree of limited depth holds all points but searches only below its inner nodes
            Ok(n > 2 && t.d.iter().any(|d| *d > 0.))
        });
    }
}

/// read the nodes of a tree from its Debug output: (vantage point, Some((radius, offset)))
fn parse_nodes(s: &str) -> Option<Vec<(usize, Option<(f64, usize)>)>> {
    let mut out: Vec<(usize, Option<(f64, usize)>)> = vec![];
    let mut rest = s;
    let num = |s: &str| -> Option<(f64, usize)> {
        let e = s.find(|c: char| !(c.is_ascii_digit() || ".-+eE".contains(c))).unwrap_or(s.len());
        s[..e].parse::<f64>().ok().map(|v| (v, e))
    };
    while let Some(p) = rest.find("vantage_pt: ") {
        rest = &rest[p + 12..];
        let (v, e) = num(rest)?;
        rest = &rest[e..];
        let end = rest.find("vantage_pt: ").unwrap_or(rest.len());
        let seg = &rest[..end];
        let ch = if seg.contains("children: None") {
            None
        } else {
            let p = seg.find("radius: ")?;
            let (rad, _) = num(&seg[p + 8..])?;
            let p = seg.find("outside_offset: ")?;
            let (off, _) = num(&seg[p + 16..])?;
            Some((rad, off as usize))
        };
        out.push((v as usize, ch));
    }
    Some(out)
}

/// the split conditions below node `lo` in the subtree [lo, hi); depth = layers allowed
fn check_tree(nodes: &[(usize, Option<(f64, usize)>)], t: &Table, lo: usize, hi: usize, depth: usize) -> Result<(), String> {
    if lo >= hi {
        return Ok(());
    }
    let Some((r, off)) = nodes[lo].1 else {
        return ensure(hi - lo == 1 || depth == 0, || format!("node {lo} with {} points below it has no children", hi - lo - 1));
    };
    ensure(depth > 0, || format!("inner node {lo} below the depth limit"))?;
    let (a, b) = (lo + 1, lo + 1 + off);
    ensure(b <= hi, || format!("node {lo}: outside starts at {b}, beyond {hi}"))?;
    ensure(hi - b >= b - a && hi - b <= b - a + 1, || format!("node {lo}: {} points inside, {} outside", b - a, hi - b))?;
    for i in a..hi {
        let d = t.d[nodes[lo].0 * t.n + nodes[i].0];
        ensure(if i < b { d <= r } else { d >= r }, || {
            format!("node {lo} (point {}) has radius {r}, point {} on its {} is at {d}", nodes[lo].0, nodes[i].0, if i < b { "inside" } else { "outside" })
        })?;
    }
    check_tree(nodes, t, a, b, depth.saturating_sub(1))?;
    check_tree(nodes, t, b, hi, depth.saturating_sub(1))
}

pub fn c05(c: &mut Ctx) {
    let total = c.n(900);
    let mut k = 0;
    let mut parsed = 0usize;
    while c.more() && k < total {
        k += 1;
        let mut r = c.rng.fork();
        let n = if k % 90 == 7 { 990 + r.below(600) } else if k % 10 == 3 { 30 + r.below(100) } else { r.below(16) };
        let t = metric(&mut r, n);
        let depth = *r.pick(&[0, 1, 2, 3, 4, 7, usize::MAX]);
        let seq = r.chance(0.5);
        let mut pts: Vec<usize> = (0..n).collect();
        r.shuffle(&mut pts);
        if n > 0 && r.chance(0.3) {
            // repeated points
            for i in 0..n {
                if r.chance(0.3) {
                    pts[i] = r.below(n);
                }
            }
        }
        let desc = if n <= 20 { format!("depth {depth} seq {seq} points {pts:?} {t:?}") } else { format!("depth {depth} seq {seq} {} metric on {n} points, VERIF_SEED={} case {k}", t.kind, c.seed) };
        c.case(&desc, || {
            use rayon::prelude::*;
            let tree = if depth == usize::MAX {
                if seq { VPTree::seq_new(pts.clone(), &t) } else { VPTree::new(pts.clone(), &t) }
            } else if seq {
                VPTree::from_iter_with_dist_and_depth(pts.clone(), &t, depth)
            } else {
                VPTree::from_par_iter_with_dist_and_depth(pts.clone().into_par_iter(), &t, depth)
            };
            let full = format!("{:?}", tree);
            let text = full.split("dist: Table").next().unwrap().to_string();
            let (nodes, _) = tree.into_nodes_dist();
            let mut a = nodes.clone();
            let mut b = pts.clone();
            a.sort();
            b.sort();
            ensure(a == b, || format!("points {b:?} became {a:?}"))?;
            if let Some(p) = parse_nodes(&text) {
                if p.len() == n && p.iter().zip(&nodes).all(|(a, b)| a.0 == *b) {
                    parsed += 1;
                    check_tree(&p, &t, 0, n, depth)?;
                }
            }
            Ok(n > 2)
        });
    }
    c.samples.push(format!("node structure read and checked in {parsed} trees"));
}

/// distance between points given by their coordinate: works for points outside the table as well
#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct IntDist;
impl Distance<i64> for IntDist {
    fn distance(&self, a: &i64, b: &i64) -> N64 {
        n64((a - b).abs() as f64)
    }
}
#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct GridDist;
impl Distance<i64> for GridDist {
    fn distance(&self, a: &i64, b: &i64) -> N64 {
        let (x, y) = ((a % 16 - b % 16).abs(), (a / 16 - b / 16).abs());
        n64((x + y) as f64)
    }
}

fn descend<D: Distance<i64>>(vp: &[VPBisection<i64>], d: &D, p: i64) -> usize {
    let mut i = 0;
    while i < vp.len() {
        i = if d.distance(&vp[i].pt, &p) <= vp[i].r { 2 * i + 1 } else { 2 * i + 2 };
    }
    i - vp.len()
}

pub fn c10(c: &mut Ctx) {
    let total = c.n(1500);
    let mut k = 0;
    while c.more() && k < total {
        k += 1;
        let mut r = c.rng.fork();
        if k % 2 == 0 {
            // any complete tree
            let lev = r.below(6) as u32;
            let n = (1usize << lev) - 1;
            let raw: Vec<(i64, f64)> = (0..n).map(|_| (r.range(-5, 250), r.range(0, 12) as f64)).collect();
            let pts: Vec<i64> = (0..20).map(|_| r.range(-5, 250)).collect();
            let desc = format!("bisections {raw:?} points {pts:?}");
            c.case(&desc, || {
                let vp: Vec<_> = raw.iter().map(|&(pt, r)| VPBisection { pt, r: n64(r) }).collect();
                let p = unsafe { VPTreePartition::from_vp(vp.clone(), IntDist) };
                let q = unsafe { VPTreePartition::from_vp(vp.clone(), GridDist) };
                ensure(p.len() == n + 1, || format!("{} regions from {n} bisections", p.len()))?;
                for x in &pts {
                    let (a, b) = (p.region(x), descend(&vp, &IntDist, *x));
                    ensure(a == b && a <= n, || format!("point {x} in region {a}, the descent leads to {b}"))?;
                    let (a, b) = (q.region(x), descend(&vp, &GridDist, *x));
                    ensure(a == b && a <= n, || format!("point {x} in region {a}, the descent leads to {b}"))?;
                }
                ensure(p.into_tree() == vp, || "into_tree does not return the bisections".into())?;
                Ok(n > 2)
            });
        } else {
            // from a tree of limited depth over enough points
            let depth = r.below(6);
            let enough = if depth == 0 { 0 } else { 3 * (1usize << (depth - 1)) - 1 };
            let n = enough + r.below(if k % 100 == 1 { 1200 } else { 20 });
            let seq = r.chance(0.5);
            let grid = r.chance(0.5);
            let hi = *r.pick(&[3, 40, 255]);
            let pts: Vec<i64> = (0..n).map(|_| r.range(0, hi)).collect();
            let desc = format!("depth {depth} seq {seq} grid {grid} points {pts:?}");
            c.case(&desc, || {
                macro_rules! go {
                    ($d:expr) => {{
                        use rayon::prelude::*;
                        let t = if seq {
                            VPTree::from_iter_with_dist_and_depth(pts.clone(), $d, depth)
                        } else {
                            VPTree::from_par_iter_with_dist_and_depth(pts.clone().into_par_iter(), $d, depth)
                        };
                        let full = format!("{t:?}");
                        let p = VPTreePartition::from(t);
                        let regions = 1usize << depth;
                        let want = if n == 0 { 1 } else { regions };
                        ensure(p.len() == want, || format!("{} regions from depth {depth}, expected {want}", p.len()))?;
                        let regs: Vec<usize> = pts.iter().map(|x| p.region(x)).collect();
                        let vp = p.into_tree();
                        for (x, a) in pts.iter().zip(&regs) {
                            ensure(*a == descend(&vp, &$d, *x), || format!("point {x} in region {a}"))?;
                        }
                        if let Some(nodes) = parse_nodes(&full) {
                            if nodes.len() == n && n > 0 {
                                let mut q = std::collections::VecDeque::from([0usize]);
                                let mut k = 0;
                                while let Some(i) = q.pop_front() {
                                    if let Some((rad, off)) = nodes[i].1 {
                                        ensure(k < vp.len() && vp[k].pt as usize == nodes[i].0 && vp[k].r == n64(rad), || {
                                            format!("bisection {k} is {:?}, the tree has {:?}", vp.get(k), nodes[i])
                                        })?;
                                        k += 1;
                                        q.push_back(i + 1);
                                        q.push_back(i + 1 + off);
                                    }
                                }
                                ensure(k == vp.len(), || format!("{} bisections, {k} inner nodes", vp.len()))?;
                            }
                        }
                    }};
                }
                if grid { go!(GridDist) } else { go!(IntDist) }
                Ok(depth > 0)
            });
        }
    }
}
