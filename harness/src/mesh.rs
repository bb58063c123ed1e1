//! Edit histories of meshes, with the half-edge structure recorded after every edit.
use crate::sc::*;
use crate::util::*;
use cgar::geometry::Aabb;
use cgar::geometry::AabbTree;
use cgar::geometry::point::Point;
use cgar::geometry::spatial_element::SpatialElement;
use cgar::mesh::basic_types::{Mesh, SplitResult, SplitResultKind};
use cgar::mesh::edge_collapse::{CollapseOpts, Placement};
use cgar::numeric::cgar_f64::CgarF64;
use cgar::numeric::cgar_rational::CgarRational;
use cgar::numeric::lazy_exact::LazyExact;
use cgar::numeric::scalar::Scalar;
use rug::Rational;
use serde_json::{Value, json};

pub const OFF: i64 = -999_999_999;

fn int(r: &Rational) -> i64 {
    if r.is_integer() { r.numer().to_i32().map_or(OFF, |v| v as i64) } else { OFF }
}
pub fn coord<T: Sc>(x: &Xf, axis: usize, v: &T) -> i64 {
    match v.get() {
        None => OFF,
        Some(r) => {
            let y = x.inv(axis, &r);
            if T::EXACT { int(&y) } else { snap(y.to_f64(), 64).map_or(OFF, |s| int(&s)) }
        }
    }
}
pub fn ints(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|c| c.as_i64().unwrap()).collect()
}
pub fn canon(t: [usize; 3]) -> [usize; 3] {
    let k = (0..3).min_by_key(|&i| t[i]).unwrap();
    [t[k], t[(k + 1) % 3], t[(k + 2) % 3]]
}

macro_rules! do_col {
    (yes, $m:expr, $u:expr, $v:expr) => {
        $m.collapse_edge($u, $v).is_ok()
    };
    (no, $m:expr, $u:expr, $v:expr) => {{
        let _ = ($u, $v);
        false
    }};
}

/// A place chosen by the caller.
pub struct Place<T: Scalar, const N: usize>(pub Point<T, N>);
impl<T: Scalar, const N: usize> Placement<T, N> for Place<T, N> {
    fn place(&self, _: &Mesh<T, N>, _: usize, _: usize) -> Point<T, N> {
        self.0.clone()
    }
}
macro_rules! do_cop {
    (yes, $m:expr, $u:expr, $v:expr, $p:expr, $f:expr) => {{
        let (p, f) = (Place($p), $f);
        let opts = CollapseOpts { forbid_border: f[0] == 1, forbid_normal_flip: f[1] == 0, ..Default::default() };
        let plan = match $m.edge_map.get(&($u, $v)).copied() {
            Some(h) if f[2] == 1 => $m.collapse_edge_begin_he(h, &p, &opts),
            _ => $m.collapse_edge_begin_vertices($u, $v, &p, &opts),
        };
        plan.is_ok_and(|c| $m.collapse_edge_commit(c).is_ok())
    }};
    (no, $m:expr, $u:expr, $v:expr, $p:expr, $f:expr) => {{
        let _ = ($u, $v, $p, $f);
        false
    }};
}

macro_rules! imp {
    ($m:ident, $T:ty, $N:literal, $col:tt) => {
        pub mod $m {
            use super::*;
            pub type T = $T;
            pub type M = Mesh<T, $N>;
            pub type Tree = AabbTree<T, $N, Point<T, $N>, usize>;
            pub fn pt(x: &Xf, p: &[i64]) -> Point<T, $N> {
                Point::from_vals(std::array::from_fn(|i| <T as Sc>::mk(&x.fwd(i, p[i]))))
            }
            pub fn pj(x: &Xf, p: &Point<T, $N>) -> Value {
                json!((0..$N).map(|i| coord(x, i, &p.coords[i])).collect::<Vec<_>>())
            }
            /// Vertices are named 1, 2, ... in the order they were made; so are the slots.
            pub fn nm(v: usize) -> i64 {
                if v == usize::MAX { -1 } else { v as i64 + 1 }
            }
            pub fn tri(m: &M, f: usize) -> Option<[usize; 3]> {
                let fa = m.faces.get(f)?;
                if fa.removed {
                    return None;
                }
                let h = m.half_edges.get(fa.half_edge)?;
                let p = m.half_edges.get(h.prev)?;
                let n = m.half_edges.get(h.next)?;
                Some(canon([p.vertex, h.vertex, n.vertex]))
            }
            pub fn trij(m: &M, f: usize) -> Value {
                match tri(m, f) {
                    Some(t) => json!(t.map(nm)),
                    None => json!([]),
                }
            }
            pub fn find(m: &M, t: &[i64]) -> Option<usize> {
                let w = canon([t[0] as usize - 1, t[1] as usize - 1, t[2] as usize - 1]);
                (0..m.faces.len()).find(|&f| tri(m, f) == Some(w))
            }
            pub fn edge(m: &M, a: i64, b: i64) -> Option<usize> {
                m.edge_map.get(&(a as usize - 1, b as usize - 1)).copied()
            }
            pub fn raw(x: &Xf, m: &M) -> Value {
                let idx = |i: usize, n: usize| if i < n { i as i64 + 1 } else { -1 };
                let (nv, nh, nf) = (m.vertices.len(), m.half_edges.len(), m.faces.len());
                let v: Vec<Value> = m
                    .vertices
                    .iter()
                    .map(|v| json!([v.half_edge.map_or(0, |h| idx(h, nh)), v.removed as i64]))
                    .collect();
                let h: Vec<Value> = m
                    .half_edges
                    .iter()
                    .map(|h| {
                        if h.removed {
                            json!([])
                        } else {
                            json!([idx(h.vertex, nv), h.face.map_or(0, |f| idx(f, nf)), idx(h.next, nh), idx(h.prev, nh), idx(h.twin, nh)])
                        }
                    })
                    .collect();
                let f: Vec<i64> = m.faces.iter().map(|f| if f.removed { 0 } else { idx(f.half_edge, nh) }).collect();
                let mut e: Vec<[i64; 3]> = m.edge_map.iter().map(|(k, h)| [idx(k.0, nv), idx(k.1, nv), idx(*h, nh)]).collect();
                e.sort();
                let p: Vec<Value> = m.vertices.iter().map(|v| pj(x, &v.position)).collect();
                json!({"v":v,"h":h,"f":f,"e":e,"p":p})
            }
            /// What changed since the last record: sizes, and the entries that differ.
            fn delta(old: &Value, new: &Value) -> Value {
                let mut d = json!({});
                for k in ["v", "h", "f", "p"] {
                    let (o, n) = (old[k].as_array(), new[k].as_array().unwrap());
                    let ch: Vec<Value> = (0..n.len())
                        .filter(|&i| o.is_none_or(|o| i >= o.len() || o[i] != n[i]))
                        .map(|i| json!([i + 1, n[i]]))
                        .collect();
                    d[k] = json!([n.len(), ch]);
                }
                let none = vec![];
                let (o, n) = (old["e"].as_array().unwrap_or(&none), new["e"].as_array().unwrap());
                let (so, sn): (std::collections::HashSet<_>, std::collections::HashSet<_>) = (o.iter().collect(), n.iter().collect());
                let add: Vec<&Value> = n.iter().filter(|x| !so.contains(x)).collect();
                let del: Vec<&Value> = o.iter().filter(|x| !sn.contains(x)).collect();
                d["e"] = json!([add, del]);
                d
            }
            /// A structure that is already broken is recorded and not driven any further.
            pub fn sane(m: &M) -> bool {
                let live = |h: usize| h < m.half_edges.len() && !m.half_edges[h].removed;
                m.half_edges.iter().enumerate().filter(|(_, h)| !h.removed).all(|(i, h)| {
                    live(h.next)
                        && live(h.prev)
                        && live(h.twin)
                        && h.vertex < m.vertices.len()
                        && m.half_edges[h.next].prev == i
                        && m.half_edges[h.prev].next == i
                        && m.half_edges[h.twin].twin == i
                        && m.half_edges[h.prev].vertex == m.half_edges[h.twin].vertex
                }) && m.vertices.iter().enumerate().filter(|(_, v)| !v.removed).all(|(i, v)| {
                    v.half_edge.is_none_or(|h| live(h) && m.half_edges[m.half_edges[h].twin].vertex == i)
                })
            }
            fn split(m: &M, r: Result<SplitResult, &'static str>) -> Value {
                match r {
                    Err(_) => json!({"s":"err","n":0,"t":[]}),
                    Ok(s) => {
                        let k = match s.kind {
                            SplitResultKind::NoSplit => "none",
                            SplitResultKind::SplitFace => "face",
                            SplitResultKind::SplitEdge => "edge",
                        };
                        let t: Vec<Value> = s.new_faces.iter().filter(|f| **f != usize::MAX).map(|f| trij(m, *f)).collect();
                        json!({"s":k,"n":nm(s.vertex),"t":t})
                    }
                }
            }
            fn all(x: &Xf) -> Aabb<T, $N, Point<T, $N>> {
                Aabb::from_points(&pt(x, &[-100_000; $N]), &pt(x, &[100_000; $N]))
            }
            pub fn live(x: &Xf, m: &M, t: &Tree) -> Value {
                let mut out = vec![];
                t.query_valid(&all(x), &mut out);
                let mut v: Vec<Vec<i64>> = out.iter().map(|f| tri(m, **f).map_or(vec![], |t| t.map(nm).to_vec())).collect();
                v.sort();
                json!(v)
            }
            /// The live faces that the tree finds at the position of each vertex.
            pub fn local(m: &M, t: &Tree) -> Value {
                let at = |v: usize| {
                    let p = &m.vertices[v].position;
                    let mut out = vec![];
                    t.query_valid(&Aabb::from_points(p, p), &mut out);
                    out.iter().filter_map(|f| tri(m, **f)).map(|t| t.map(nm)).collect::<Vec<_>>()
                };
                json!((0..m.vertices.len()).map(at).collect::<Vec<_>>())
            }
            /// One edit; the value tells what it answered.
            pub fn apply(x: &Xf, m: &mut M, tree: &mut Option<Tree>, op: &Value) -> Value {
                let v = ints(&op["v"]);
                let u = |i: usize| v[i] as usize - 1;
                let ts = || -> Vec<Vec<i64>> { op["t"].as_array().unwrap().iter().map(ints).collect() };
                let lost = json!({"s":"lost","n":0,"t":[]});
                let mut spare: Tree = AabbTree::build(vec![(all(x), 0usize)]);
                let upd = tree.is_some();
                match op["o"].as_str().unwrap() {
                    "verts" => {
                        for p in ts() {
                            m.add_vertex(pt(x, &p));
                        }
                        json!({"s":"ok","n":nm(m.vertices.len() - 1),"t":[]})
                    }
                    "addt" => {
                        let f = m.add_triangle(u(0), u(1), u(2));
                        if f == usize::MAX { json!({"s":"no","n":0,"t":[]}) } else { json!({"s":"ok","n":0,"t":[trij(m, f)]}) }
                    }
                    "addm" => {
                        let l: Vec<(usize, usize, usize)> =
                            ts().iter().map(|t| (t[0] as usize - 1, t[1] as usize - 1, t[2] as usize - 1)).collect();
                        let fs = m.add_triangles_deferred(&l);
                        json!({"s":"ok","n":0,"t":fs.iter().map(|f| trij(m, *f)).collect::<Vec<_>>()})
                    }
                    "remt" => match find(m, &v) {
                        None => lost,
                        Some(f) => {
                            m.remove_triangle(f);
                            json!({"s":"ok","n":0,"t":[]})
                        }
                    },
                    "remm" => {
                        let fs: Vec<Option<usize>> = ts().iter().map(|t| find(m, t)).collect();
                        if fs.iter().any(|f| f.is_none()) {
                            return lost;
                        }
                        let fs: Vec<usize> = fs.into_iter().flatten().collect();
                        let (s, a) = m.remove_triangles_deferred(&fs);
                        m.weld_border_components_from(&s);
                        m.fix_vertices_outgoing_for(&a);
                        json!({"s":"ok","n":0,"t":[]})
                    }
                    "flip" => match edge(m, v[0], v[1]) {
                        None => lost,
                        Some(h) => json!({"s": if m.flip_edge(h).is_ok() {"ok"} else {"no"},"n":0,"t":[]}),
                    },
                    "spe" => match edge(m, v[0], v[1]) {
                        None => lost,
                        Some(h) => {
                            let r = m.split_edge(tree.as_mut().unwrap_or(&mut spare), h, &pt(x, &ints(&op["p"])), upd);
                            split(m, r)
                        }
                    },
                    "spf" => match find(m, &v) {
                        None => lost,
                        Some(f) => {
                            let r = m.split_face(tree.as_mut().unwrap_or(&mut spare), f, &pt(x, &ints(&op["p"])), upd);
                            split(m, r)
                        }
                    },
                    "col" => json!({"s": if do_col!($col, m, u(0), u(1)) {"ok"} else {"no"},"n":0,"t":[]}),
                    "cop" => json!({"s": if do_cop!($col, m, u(0), u(1), pt(x, &ints(&op["p"])), ints(&op["t"][0])) {"ok"} else {"no"},"n":0,"t":[]}),
                    "getv" => {
                        let (i, old) = m.get_or_insert_vertex(&pt(x, &ints(&op["p"])));
                        json!({"s": if old {"old"} else {"new"},"n":nm(i),"t":[]})
                    }
                    "loops" => {
                        m.build_boundary_loops();
                        json!({"s":"ok","n":0,"t":[]})
                    }
                    o => panic!("unknown edit {o}"),
                }
            }
            pub fn hist(cx: &mut Ctx, x: &Xf, q: i64, ops: &Value) {
                let d = || json!({"k":"mesh","t":T::NAME,"x":x.id,"dim":$N,"q":q,"ops":ops});
                let mut steps: Vec<Value> = vec![];
                let st = &mut steps;
                let r = cx.run(d, || {
                    let mut m = M::new();
                    let mut tree: Option<Tree> = None;
                    let mut last = json!({});
                    for op in ops.as_array().unwrap() {
                        let o = op["o"].as_str().unwrap();
                        if q == 5 && o.starts_with("sp") && tree.is_none() {
                            tree = Some(m.build_face_tree());
                        }
                        let a = apply(x, &mut m, &mut tree, op);
                        let lost = a["s"] == "lost";
                        let tl: Vec<Value> = tree.iter().map(|t| live(x, &m, t)).collect();
                        let now = raw(x, &m);
                        st.push(json!({"a":a,"m":delta(&last, &now),"tree":tl,"at":tree.iter().map(|t| local(&m, t)).collect::<Vec<_>>()}));
                        last = now;
                        if lost || !sane(&m) {
                            break;
                        }
                    }
                });
                let mut e = d();
                e["r"] = json!(steps);
                e["fail"] = json!(r.err().into_iter().collect::<Vec<_>>());
                cx.emit(&e);
            }
        }
    };
}
imp!(f3, CgarF64, 3, yes);
imp!(r3, CgarRational, 3, yes);
imp!(l3, LazyExact, 3, yes);
imp!(f2, CgarF64, 2, no);
imp!(r2, CgarRational, 2, no);
imp!(l2, LazyExact, 2, no);

/// Vertex merging has a tolerance, so only maps that keep lattice points apart are used.
pub fn maps() -> (Vec<Xf>, Vec<Xf>) {
    let mut xe = xf_double();
    xe.extend(xf_exact().into_iter().filter(|x| x.id == 10 || x.id == 11));
    (xf_double(), xe)
}

pub fn run(cx: &mut Ctx) {
    let (xd, xe) = maps();
    let text = std::fs::read_to_string(cx.input.clone().expect("--in FILE")).unwrap();
    for (k, line) in text.lines().enumerate() {
        let b: Value = serde_json::from_str(line).unwrap();
        let (q, ops) = (b["q"].as_i64().unwrap(), &b["ops"]);
        let flat = ops[0]["t"][0].as_array().unwrap().len() == 2;
        let (a, e) = (&xd[k / 3 % xd.len()], &xe[k / 3 % xe.len()]);
        match (k % 3, flat) {
            (0, false) => f3::hist(cx, a, q, ops),
            (1, false) => r3::hist(cx, e, q, ops),
            (_, false) => l3::hist(cx, e, q, ops),
            (0, true) => f2::hist(cx, a, q, ops),
            (1, true) => r2::hist(cx, e, q, ops),
            (_, true) => l2::hist(cx, e, q, ops),
        }
    }
}
