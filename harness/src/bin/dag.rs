//! The ranked graph against a model, the ranks and their optimisers.

use layout::adt::dag::{NodeHandle, DAG};
use layout::topo::optimizer::{EdgeCrossOptimizer, RankOptimizer};
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vh::ck;
use vh::ctx::*;
use vh::rng::{hash_str, Rng};
use vh::runner::Prop;

type E = (usize, usize);

fn h(i: usize) -> NodeHandle {
    NodeHandle::from(i)
}

/// What the graph should be.
#[derive(Clone, Default)]
struct Model {
    n: usize,
    edges: Vec<E>,
    rows: Vec<Vec<usize>>,
}

impl Model {
    fn place(&mut self, node: usize, level: usize) {
        while self.rows.len() <= level {
            self.rows.push(Vec::new());
        }
        self.rows[level].push(node);
    }
    fn reach(&self) -> Vec<Vec<bool>> {
        let mut adj = vec![Vec::new(); self.n];
        for (a, b) in &self.edges {
            adj[*a].push(*b);
        }
        let mut r = vec![vec![false; self.n]; self.n];
        for (s, row) in r.iter_mut().enumerate() {
            let mut todo = vec![s];
            row[s] = true;
            while let Some(x) = todo.pop() {
                for y in &adj[x] {
                    if !row[*y] {
                        row[*y] = true;
                        todo.push(*y);
                    }
                }
            }
        }
        r
    }
    fn level(&self, n: usize) -> usize {
        self.rows.iter().position(|r| r.contains(&n)).unwrap()
    }
    fn cyclic(&self) -> bool {
        // Edges from a node to itself do not count.
        let mut deg = vec![0; self.n];
        let mut adj = vec![Vec::new(); self.n];
        for (a, b) in &self.edges {
            if a != b {
                deg[*b] += 1;
                adj[*a].push(*b);
            }
        }
        let mut todo: Vec<usize> = (0..self.n).filter(|i| deg[*i] == 0).collect();
        let mut seen = 0;
        while let Some(x) = todo.pop() {
            seen += 1;
            for y in &adj[x] {
                deg[*y] -= 1;
                if deg[*y] == 0 {
                    todo.push(*y);
                }
            }
        }
        seen < self.n
    }
    /// The length of the longest chain that ends in each node.
    fn depths(&self) -> Vec<usize> {
        let mut d = vec![0; self.n];
        // Relax until nothing changes; the graph is acyclic.
        loop {
            let mut changed = false;
            for (a, b) in &self.edges {
                if a != b && d[*b] < d[*a] + 1 {
                    d[*b] = d[*a] + 1;
                    changed = true;
                }
            }
            if !changed {
                return d;
            }
        }
    }
}

fn rows_of(d: &DAG) -> Vec<Vec<usize>> {
    (0..d.num_levels())
        .map(|l| d.row(l).iter().map(|x| x.get_index()).collect())
        .collect()
}

fn sorted<T: Ord + Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    v.sort();
    v
}

fn edges_of(d: &DAG) -> Vec<E> {
    let mut v = Vec::new();
    for a in d.iter() {
        for b in d.successors(a) {
            v.push((a.get_index(), b.get_index()));
        }
    }
    v
}

/// Compare every public query with the model.
fn compare(m: &Model, d: &DAG, queries: usize, rng: &mut Rng) -> R {
    ck!(d.len() == m.n, "length", "{} nodes instead of {}", d.len(), m.n);
    ck!(d.is_empty() == (m.n == 0), "emptiness", "is_empty() is {}", d.is_empty());
    let it: Vec<usize> = d.iter().map(|x| x.get_index()).collect();
    ck!(
        sorted(&it) == (0..m.n).collect::<Vec<_>>(),
        "iteration",
        "iterates over {:?} of {} nodes",
        it,
        m.n
    );
    // Edges.
    let mut succ = vec![Vec::new(); m.n];
    let mut pred = vec![Vec::new(); m.n];
    for (a, b) in &m.edges {
        succ[*a].push(*b);
        pred[*b].push(*a);
    }
    for i in 0..m.n {
        let s: Vec<usize> = d.successors(h(i)).iter().map(|x| x.get_index()).collect();
        let p: Vec<usize> = d.predecessors(h(i)).iter().map(|x| x.get_index()).collect();
        ck!(
            sorted(&s) == sorted(&succ[i]),
            "successors",
            "successors of {} are {:?} instead of {:?}",
            i,
            s,
            succ[i]
        );
        ck!(
            sorted(&p) == sorted(&pred[i]),
            "predecessors",
            "predecessors of {} are {:?} instead of {:?}",
            i,
            p,
            pred[i]
        );
        let one = |v: &Vec<usize>| if v.len() == 1 { Some(v[0]) } else { None };
        let (gs, gp) = (
            d.single_succ(h(i)).map(|x| x.get_index()),
            d.single_pred(h(i)).map(|x| x.get_index()),
        );
        ck!(gs == one(&succ[i]), "single-succ", "of {}: {:?}, {:?}", i, gs, succ[i]);
        ck!(gp == one(&pred[i]), "single-pred", "of {}: {:?}, {:?}", i, gp, pred[i]);
    }
    // Rows.
    let rows = rows_of(d);
    ck!(
        rows.len() == d.ranks().len(),
        "rows",
        "{} rows but {} ranks",
        rows.len(),
        d.ranks().len()
    );
    let flat: Vec<usize> = rows.iter().flatten().copied().collect();
    ck!(
        sorted(&flat) == (0..m.n).collect::<Vec<_>>(),
        "one-row-each",
        "{} nodes, rows {:?}",
        m.n,
        rows
    );
    ck!(
        rows.len() == m.rows.len() && (0..rows.len()).all(|i| {
            rows[i] == *m.rows.get(i).unwrap_or(&Vec::new())
        }),
        "rows",
        "rows {:?} instead of {:?}",
        rows,
        m.rows
    );
    for (l, row) in rows.iter().enumerate() {
        let r2: Vec<usize> = d.ranks()[l].iter().map(|x| x.get_index()).collect();
        ck!(*row == r2, "rows", "row {} is {:?} and {:?}", l, row, r2);
        for (k, n) in row.iter().enumerate() {
            ck!(
                d.level(h(*n)) == l,
                "level",
                "level of {} is {}, it is in row {}",
                n,
                d.level(h(*n)),
                l
            );
            ck!(
                d.is_first_in_row(h(*n), l) == (k == 0),
                "first-in-row",
                "{} in {:?}",
                n,
                row
            );
            ck!(
                d.is_last_in_row(h(*n), l) == (k + 1 == row.len()),
                "last-in-row",
                "{} in {:?}",
                n,
                row
            );
        }
    }
    if m.n == 0 {
        return Ok(());
    }
    for _ in 0..queries {
        let (n, l) = (rng.below(m.n), rng.below(rows.len() + 3));
        let row = rows.get(l).cloned().unwrap_or_default();
        ck!(
            d.is_first_in_row(h(n), l) == (row.first() == Some(&n)),
            "first-in-row",
            "{} at {} in {:?}",
            n,
            l,
            rows
        );
        ck!(
            d.is_last_in_row(h(n), l) == (row.last() == Some(&n)),
            "last-in-row",
            "{} at {} in {:?}",
            n,
            l,
            rows
        );
    }
    let reach = m.reach();
    let hub = (0..m.n).max_by_key(|i| succ[*i].len());
    for a in 0..m.n {
        for b in 0..m.n {
            if Some(a) == hub {
                // All of them.
            } else if m.n > 12 && !rng.pct(20) || m.n > 100 && rng.below(m.n) > 1 {
                continue;
            }
            let got = d.is_reachable(h(a), h(b));
            ck!(
                got == reach[a][b],
                "reachability",
                "is_reachable({}, {}) is {}",
                a,
                b,
                got
            );
        }
    }
    Ok(())
}

/// Validation accepts exactly the acyclic graphs.
fn validate(m: &Model, d: &DAG, on: bool, ctx: &mut Ctx) -> R {
    let ok = catch_unwind(AssertUnwindSafe(|| d.verify())).is_ok();
    let _ = vh::runner::take_panic();
    let cyc = m.cyclic();
    ctx.count(if cyc { "validations_of_cyclic_graphs" } else { "validations" }, 1);
    if on && cyc {
        ck!(!ok, "validation", "a cycle was accepted: {:?}", m.edges);
    } else {
        ck!(ok, "validation", "rejected: {:?}", m.edges);
    }
    Ok(())
}

fn structure(ctx: &mut Ctx) -> R {
    let mut rng = ctx.rng.clone();
    let cycles = rng.pct(30);
    let many = rng.pct(4);
    // Rarely more than what fits into a byte.
    let huge = !many && rng.below(300) == 0;
    let cap = match (huge, many) {
        (true, _) => rng.range(257, 340),
        (_, true) => rng.range(30, 90),
        _ => rng.range(2, 12),
    };
    let len = if huge || many { rng.range(40, 160) } else { rng.range(1, 50) };
    let mut d = if rng.pct(50) { DAG::new() } else { DAG::default() };
    let mut on = true;
    if rng.pct(20) {
        on = rng.pct(50);
        d.set_validate(on);
    }
    let mut m = Model::default();
    let mut log = String::new();
    let (mut removed, mut missing, mut moves, mut clears, mut dup) = (0, 0, 0, 0, 0);
    compare(&m, &d, 0, &mut rng)?;
    for _ in 0..len {
        let c = rng.below(100);
        if m.n == 0 || (c < 14 && m.n < cap) {
            if rng.pct(75) || m.cyclic() {
                let x = d.new_node();
                ck!(
                    x.get_index() == m.n,
                    "handle",
                    "node {} got the handle {}",
                    m.n,
                    x.get_index()
                );
                log.push_str("new; ");
                m.place(m.n, 0);
                m.n += 1;
            } else {
                let k = if huge && m.n < 60 { rng.range(200, 300) } else { rng.below(5) };
                log.push_str(&format!("new {}; ", k));
                ctx.set_input(log.clone());
                d.new_nodes(k);
                for _ in 0..k {
                    m.place(m.n, 0);
                    m.n += 1;
                }
            }
        } else if huge && m.n > 200 && c < 20 {
            // From one node to most of the others, or from them to it.
            let a = rng.below(m.n);
            let away = rng.pct(50);
            let few = *rng.pick(&[5, 30, 60]);
            for b in 0..m.n {
                if b == a || rng.pct(few) {
                    continue;
                }
                let e = if away { (a, b) } else { (b, a) };
                let mut t = m.clone();
                t.edges.push(e);
                if !cycles && t.cyclic() {
                    continue;
                }
                d.add_edge(h(e.0), h(e.1));
                m = t;
            }
            log.push_str(&format!("{} {} most; ", a, if away { "to" } else { "from" }));
        } else if c < 55 {
            let (a, b) = (rng.below(m.n), rng.below(m.n));
            let closes = a != b && {
                let mut t = m.clone();
                t.edges.push((a, b));
                t.cyclic()
            };
            if closes && !cycles {
                continue;
            }
            if m.edges.contains(&(a, b)) {
                dup += 1;
            }
            log.push_str(&format!("{}->{}; ", a, b));
            d.add_edge(h(a), h(b));
            m.edges.push((a, b));
        } else if c < 70 {
            let (a, b) = if !m.edges.is_empty() && rng.pct(75) {
                *rng.pick(&m.edges)
            } else {
                (rng.below(m.n), rng.below(m.n))
            };
            log.push_str(&format!("cut {}->{}; ", a, b));
            ctx.set_input(log.clone());
            let got = d.remove_edge(h(a), h(b));
            let at = m.edges.iter().position(|e| *e == (a, b));
            ck!(
                got == at.is_some(),
                "removal-report",
                "remove_edge({}, {}) returned {} with the edges {:?}",
                a,
                b,
                got,
                m.edges
            );
            match at {
                Some(i) => {
                    m.edges.remove(i);
                    removed += 1
                }
                None => missing += 1,
            }
        } else if c < 88 {
            let n = rng.below(m.n);
            let l = rng.below(m.rows.len() + 3);
            let row: Vec<usize> = m
                .rows
                .get(l)
                .cloned()
                .unwrap_or_default()
                .into_iter()
                .filter(|x| *x != n)
                .collect();
            let before = if row.is_empty() || rng.pct(40) {
                None
            } else {
                Some(*rng.pick(&row))
            };
            log.push_str(&format!("move {} to {} before {:?}; ", n, l, before));
            ctx.set_input(log.clone());
            d.update_node_rank_level(h(n), l, before.map(h));
            let cur = m.level(n);
            m.rows[cur].retain(|x| *x != n);
            while m.rows.len() <= l {
                m.rows.push(Vec::new());
            }
            match before {
                Some(b) => {
                    let at = m.rows[l].iter().position(|x| *x == b).unwrap();
                    m.rows[l].insert(at, n);
                }
                None => m.rows[l].push(n),
            }
            moves += 1;
        } else if c < 92 {
            if m.cyclic() {
                continue;
            }
            log.push_str("rank; ");
            ctx.set_input(log.clone());
            d.recompute_node_ranks();
            let want = m.depths();
            for (i, w) in want.iter().enumerate() {
                ck!(
                    d.level(h(i)) == *w,
                    "rank",
                    "node {} has rank {} instead of {}",
                    i,
                    d.level(h(i)),
                    w
                );
            }
            // The order within a row is not specified.
            m.rows = rows_of(&d);
        } else if c < 95 {
            // Reorder a row through the mutable views.
            let l = rng.below(m.rows.len());
            let mut row = m.rows[l].clone();
            rng.shuffle(&mut row);
            log.push_str(&format!("row {} = {:?}; ", l, row));
            let hs = row.iter().map(|x| h(*x)).collect();
            if rng.pct(50) {
                *d.row_mut(l) = hs;
            } else {
                d.ranks_mut()[l] = hs;
            }
            m.rows[l] = row;
        } else if c < 96 {
            log.push_str("clear; ");
            d.clear();
            m = Model::default();
            clears += 1;
        } else {
            log.push_str("verify; ");
            ctx.set_input(log.clone());
            validate(&m, &d, on, ctx)?;
        }
        ctx.set_input(log.clone());
        ctx.count("operations", 1);
        compare(&m, &d, 4, &mut rng)?;
    }
    ctx.count("edges_removed", removed);
    ctx.count("removals_of_missing_edges", missing);
    ctx.count("parallel_edges_added", dup);
    ctx.count("nodes_moved", moves);
    ctx.count("clears", clears);
    ctx.max("nodes", m.n as u64);
    if len > 4 {
        ctx.nontrivial(hash_str(&log));
        ctx.sample(log);
    }
    Ok(())
}

/// A random acyclic graph: the topological order is a random permutation.
fn acyclic(rng: &mut Rng, max: usize) -> Model {
    let n = match rng.below(12) {
        0 => 1,
        1 if rng.below(40) == 0 => rng.range(257, 320),
        1 => rng.range(1, max),
        _ => rng.range(2, (max / 6).max(10)),
    };
    let mut perm: Vec<usize> = (0..n).collect();
    match rng.below(3) {
        0 => {}
        1 => perm.reverse(),
        _ => rng.shuffle(&mut perm),
    }
    let mut edges: Vec<E> = Vec::new();
    match rng.below(6) {
        // A chain with shortcuts.
        0 => {
            for i in 1..n {
                edges.push((i - 1, i));
            }
            for _ in 0..rng.below(n + 1) {
                let (a, b) = (rng.below(n), rng.below(n));
                if a < b {
                    edges.push((a, b));
                }
            }
        }
        // A tree.
        1 => {
            for i in 1..n {
                edges.push((rng.below(i), i));
            }
        }
        // An inverted tree: several sources of different depth.
        2 => {
            for i in 0..n.saturating_sub(1) {
                edges.push((i, rng.range(i + 1, n - 1)));
            }
        }
        // Bipartite-like layers.
        3 => {
            let w = rng.range(1, 5);
            for b in w..n {
                for _ in 0..rng.range(1, 3) {
                    let a = b - 1 - rng.below((2 * w).min(b));
                    edges.push((a, b));
                }
            }
        }
        _ => {
            let k = rng.below(3 * n + 1);
            for _ in 0..k {
                let (a, b) = (rng.below(n), rng.below(n));
                if a < b {
                    edges.push((a, b));
                }
            }
        }
    }
    for e in edges.iter_mut() {
        *e = (perm[e.0], perm[e.1]);
    }
    if !edges.is_empty() && rng.pct(40) {
        for _ in 0..rng.range(1, 4) {
            let e = *rng.pick(&edges);
            edges.push(e);
        }
    }
    rng.shuffle(&mut edges);
    Model {
        n,
        edges,
        rows: Vec::new(),
    }
}

fn build(m: &Model, rng: &mut Rng) -> DAG {
    let mut d = DAG::new();
    if rng.pct(50) {
        d.new_nodes(m.n);
        for e in &m.edges {
            d.add_edge(h(e.0), h(e.1));
        }
    } else {
        // Edges as soon as their ends exist.
        for i in 0..m.n {
            d.new_node();
            for e in m.edges.iter().filter(|e| e.0.max(e.1) == i) {
                d.add_edge(h(e.0), h(e.1));
            }
        }
    }
    d
}

fn total(m: &Model, lv: &[usize]) -> i64 {
    m.edges.iter().map(|(a, b)| lv[*b] as i64 - lv[*a] as i64).sum()
}

/// The level of each node, when each is in one row.
fn levels(m: &Model, d: &DAG) -> Result<Vec<usize>, Fail> {
    let rows = rows_of(d);
    let flat: Vec<usize> = rows.iter().flatten().copied().collect();
    ck_rows(m, &flat, &rows)?;
    let mut lv = vec![0; m.n];
    for (l, r) in rows.iter().enumerate() {
        for n in r {
            lv[*n] = l;
            if d.level(h(*n)) != l {
                return fail("level", format!("{} in {:?}", n, rows));
            }
        }
    }
    Ok(lv)
}

fn ck_rows(m: &Model, flat: &[usize], rows: &[Vec<usize>]) -> R {
    ck!(
        sorted(flat) == (0..m.n).collect::<Vec<_>>(),
        "one-row-each",
        "{} nodes in the rows {:?}",
        m.n,
        rows
    );
    Ok(())
}

fn down(m: &Model, lv: &[usize], what: &str) -> R {
    for (a, b) in &m.edges {
        ck!(
            a == b || lv[*a] < lv[*b],
            "edge-not-down",
            "{}: edge {}->{} from level {} to level {}",
            what,
            a,
            b,
            lv[*a],
            lv[*b]
        );
    }
    Ok(())
}

fn same_edges(m: &Model, d: &DAG) -> R {
    ck!(
        sorted(&edges_of(d)) == sorted(&m.edges),
        "edges-changed",
        "{:?} instead of {:?}",
        edges_of(d),
        m.edges
    );
    Ok(())
}

fn ranks(ctx: &mut Ctx) -> R {
    let mut rng = ctx.rng.clone();
    let mut m = acyclic(&mut rng, if ctx.thorough() { 150 } else { 100 });
    if rng.pct(20) {
        // Edges from a node to itself take no part in the ranks.
        for _ in 0..rng.range(1, 3) {
            let x = rng.below(m.n);
            m.edges.push((x, x));
        }
    }
    ctx.set_input(format!("nodes: {}\nedges: {:?}", m.n, m.edges));
    let mut d = build(&m, &mut rng);
    d.recompute_node_ranks();
    let lv = levels(&m, &d)?;
    let want = m.depths();
    for i in 0..m.n {
        ck!(
            lv[i] == want[i],
            "rank",
            "node {} is at rank {}; the longest chain to it has {} edges",
            i,
            lv[i],
            want[i]
        );
    }
    down(&m, &lv, "ranked")?;
    ck!(
        d.num_levels() == want.iter().max().unwrap() + 1,
        "number-of-ranks",
        "{} ranks, the deepest node is at {}",
        d.num_levels(),
        want.iter().max().unwrap()
    );
    let mut lv = lv;
    // Sometimes start from other valid ranks.
    if rng.pct(40) {
        let k = rng.range(1, 3);
        let mut at: Vec<usize> = want.iter().map(|x| x * k).collect();
        let mut order: Vec<usize> = (0..m.n).collect();
        order.sort_by_key(|i| std::cmp::Reverse(want[*i]));
        for i in order {
            let next = m
                .edges
                .iter()
                .filter(|e| e.0 == i && e.1 != i)
                .map(|e| at[e.1])
                .min()
                .unwrap_or(at[i] + 4);
            at[i] = rng.range(at[i], (next - 1).max(at[i]));
        }
        for (i, l) in at.iter().enumerate() {
            d.update_node_rank_level(h(i), *l, None);
        }
        lv = levels(&m, &d)?;
        ck!(lv == at, "moved-ranks", "{:?} instead of {:?}", lv, at);
        down(&m, &lv, "stretched")?;
        ctx.count("graphs_with_other_ranks", 1);
    }
    let before = total(&m, &lv);
    let mut sunk = 0;
    if rng.pct(60) {
        for _ in 0..rng.range(1, (3 * m.n).min(300)) {
            let x = rng.below(m.n);
            let got = RankOptimizer::new(&mut d).try_to_sink_node(h(x));
            let now = levels(&m, &d)?;
            down(&m, &now, "after sinking")?;
            for i in 0..m.n {
                ck!(
                    i == x || now[i] == lv[i],
                    "other-node-moved",
                    "sinking {} moved {} from {} to {}",
                    x,
                    i,
                    lv[i],
                    now[i]
                );
            }
            ck!(
                got == (now[x] != lv[x]),
                "sink-report",
                "sinking {} returned {}; it went from {} to {}",
                x,
                got,
                lv[x],
                now[x]
            );
            ck!(
                now[x] >= lv[x],
                "hoisted",
                "sinking {} moved it from {} to {}",
                x,
                lv[x],
                now[x]
            );
            ck!(
                total(&m, &now) <= total(&m, &lv),
                "edges-longer",
                "sinking {} from {} to {} changes the total from {} to {}",
                x,
                lv[x],
                now[x],
                total(&m, &lv),
                total(&m, &now)
            );
            sunk += got as u64;
            lv = now;
            ctx.count("single_steps", 1);
        }
    }
    RankOptimizer::new(&mut d).optimize();
    let now = levels(&m, &d)?;
    down(&m, &now, "after the optimiser")?;
    same_edges(&m, &d)?;
    ck!(
        total(&m, &now) <= total(&m, &lv) && total(&m, &lv) <= before,
        "edges-longer",
        "the total went from {} to {} to {}",
        before,
        total(&m, &lv),
        total(&m, &now)
    );
    for i in 0..m.n {
        ck!(
            !RankOptimizer::new(&mut d).try_to_sink_node(h(i)),
            "not-finished",
            "the optimiser stopped, yet node {} can be sunk",
            i
        );
    }
    ctx.count("nodes_sunk_singly", sunk);
    ctx.count("length_saved", (before - total(&m, &now)) as u64);
    if before > total(&m, &now) {
        ctx.count("graphs_shortened", 1);
    }
    ctx.max("nodes", m.n as u64);
    ctx.max("ranks", d.num_levels() as u64);
    ctx.count("edges", m.edges.len() as u64);
    if m.edges.len() > 1 {
        ctx.nontrivial(hash_str(ctx.input()));
        let s = ctx.input().to_string();
        ctx.sample(s);
    }
    Ok(())
}

/// The crossings between adjacent rows, one edge at a time. Edges with the
/// same ends count once.
fn crossings(m: &Model, rows: &[Vec<usize>]) -> usize {
    let mut at = vec![(0, 0); m.n];
    for (l, r) in rows.iter().enumerate() {
        for (k, n) in r.iter().enumerate() {
            at[*n] = (l, k);
        }
    }
    let es: HashSet<E> = m.edges.iter().copied().collect();
    let mut by: Vec<Vec<E>> = vec![Vec::new(); rows.len()];
    for (a, b) in es {
        by[at[a].0].push((at[a].1, at[b].1));
    }
    let mut sum = 0;
    for v in &by {
        for i in 0..v.len() {
            for j in 0..i {
                let (p, q) = (v[i], v[j]);
                if (p.0 < q.0 && p.1 > q.1) || (p.0 > q.0 && p.1 < q.1) {
                    sum += 1;
                }
            }
        }
    }
    sum
}

/// A pair of neighbours in a row that would save crossings if they were
/// exchanged. Edges with the same ends count once.
fn improvable(m: &Model, rows: &[Vec<usize>]) -> Option<(usize, usize)> {
    let mut at = vec![(0, 0); m.n];
    for (l, r) in rows.iter().enumerate() {
        for (k, n) in r.iter().enumerate() {
            at[*n] = (l, k);
        }
    }
    let (mut up, mut down) = (vec![Vec::new(); m.n], vec![Vec::new(); m.n]);
    for (a, b) in m.edges.iter().copied().collect::<HashSet<E>>() {
        down[a].push(at[b].1);
        up[b].push(at[a].1);
    }
    let cross = |l: &[usize], r: &[usize]| -> usize {
        l.iter().map(|x| r.iter().filter(|y| x > *y).count()).sum()
    };
    for r in rows {
        for w in r.windows(2) {
            let (a, b) = (w[0], w[1]);
            let now = cross(&up[a], &up[b]) + cross(&down[a], &down[b]);
            let then = cross(&up[b], &up[a]) + cross(&down[b], &down[a]);
            if then < now {
                return Some((a, b));
            }
        }
    }
    None
}

fn permuted(before: &[Vec<usize>], after: &[Vec<usize>], what: &str) -> R {
    ck!(
        before.len() == after.len()
            && (0..before.len()).all(|i| sorted(&before[i]) == sorted(&after[i])),
        "not-a-permutation",
        "{}: the rows {:?} became {:?}",
        what,
        before,
        after
    );
    Ok(())
}

fn crossing(ctx: &mut Ctx) -> R {
    let mut rng = ctx.rng.clone();
    let nr = match rng.below(10) {
        0 => 1,
        1 => rng.range(6, 14),
        _ => rng.range(2, 5),
    };
    // Two wide rows, rarely.
    let huge = rng.below(1500) == 0;
    let nr = if huge { 2 } else { nr };
    let w = match rng.below(100) {
        _ if huge => rng.range(50, 80),
        0..=7 => 18,
        _ => rng.range(1, 8),
    };
    let mut rows: Vec<Vec<usize>> = Vec::new();
    let mut n = 0;
    for _ in 0..nr {
        let k = if huge { w - rng.below(12) } else { rng.range(1, w) };
        rows.push((n..n + k).collect());
        n += k;
    }
    // The numbers of the nodes follow no pattern.
    let mut perm: Vec<usize> = (0..n).collect();
    if rng.pct(60) {
        rng.shuffle(&mut perm);
    }
    for r in rows.iter_mut() {
        for x in r.iter_mut() {
            *x = perm[*x];
        }
        rng.shuffle(r);
    }
    let mut edges: Vec<E> = Vec::new();
    for l in 1..nr {
        let (up, lo) = (&rows[l - 1], &rows[l]);
        match if huge { 2 * rng.below(2) } else { rng.below(5) } {
            // Reversed pairs: many crossings.
            0 => {
                for k in 0..up.len().min(lo.len()) {
                    edges.push((up[k], lo[lo.len() - 1 - k]));
                }
            }
            // Complete.
            1 => {
                for a in up {
                    for b in lo {
                        if up.len() * lo.len() < 30 || rng.pct(50) {
                            edges.push((*a, *b));
                        }
                    }
                }
            }
            // A matching.
            2 => {
                let mut t = lo.clone();
                rng.shuffle(&mut t);
                for (a, b) in up.iter().zip(t) {
                    edges.push((*a, b));
                }
            }
            _ => {
                for _ in 0..rng.below(2 * up.len().max(lo.len()) + 1) {
                    edges.push((*rng.pick(up), *rng.pick(lo)));
                }
            }
        }
    }
    if !edges.is_empty() && rng.pct(30) {
        for _ in 0..rng.range(1, 4) {
            let e = *rng.pick(&edges);
            edges.push(e);
        }
    }
    rng.shuffle(&mut edges);
    let m = Model { n, edges, rows };
    ctx.set_input(format!("rows: {:?}\nedges: {:?}", m.rows, m.edges));
    let mut d = build(&m, &mut rng);
    let want: Vec<Vec<NodeHandle>> =
        m.rows.iter().map(|r| r.iter().map(|x| h(*x)).collect()).collect();
    *d.ranks_mut() = want;
    let before = rows_of(&d);
    ck!(before == m.rows, "rows", "{:?} instead of {:?}", before, m.rows);
    match rng.below(8) {
        0 => {
            EdgeCrossOptimizer::new(&mut d).perturb_rank();
            permuted(&before, &rows_of(&d), "perturb")?;
            ctx.count("perturbations", 1);
        }
        1 => {
            EdgeCrossOptimizer::new(&mut d).rotate_rank();
            permuted(&before, &rows_of(&d), "rotate")?;
            ctx.count("rotations", 1);
        }
        _ => {}
    }
    let mut now = rows_of(&d);
    let mut c0 = crossings(&m, &now);
    let first = c0;
    for _ in 0..rng.range(1, 2) {
        EdgeCrossOptimizer::new(&mut d).optimize();
        let after = rows_of(&d);
        permuted(&now, &after, "optimize")?;
        same_edges(&m, &d)?;
        let c1 = crossings(&m, &after);
        ck!(
            c1 <= c0,
            "more-crossings",
            "{} crossings became {}: {:?} to {:?}",
            c0,
            c1,
            now,
            after
        );
        if let Some((a, b)) = improvable(&m, &now) {
            ck!(
                c1 < c0,
                "not-improved",
                "still {} crossings, though exchanging {} and {} alone saves some: {:?} to {:?}",
                c0,
                a,
                b,
                now,
                after
            );
            ctx.count("rows_to_improve", 1);
        }
        now = after;
        c0 = c1;
        ctx.count("optimiser_runs", 1);
    }
    ctx.count("crossings_before", first as u64);
    ctx.count("crossings_after", c0 as u64);
    if c0 < first {
        ctx.count("graphs_improved", 1);
    }
    if first > 0 {
        ctx.nontrivial(hash_str(ctx.input()));
        let s = ctx.input().to_string();
        ctx.sample(s);
    }
    ctx.max("nodes", n as u64);
    ctx.max("crossings", first as u64);
    Ok(())
}

const G: u64 = 1_000_000_000;

static PROPS: &[Prop] = &[
    Prop {
        id: "C17",
        quick: 400_000,
        thorough: 10_000_000,
        fuel: 2 * G,
        run: structure,
        rule: "a distinct history of more than four operations",
        assumptions: &[
            "a node is placed before a node of the row that it is moved to",
            "ranks are computed for non-empty graphs without cycles",
            "the order of a successor list, and the order within a row after ranks were computed, are not specified",
        ],
    },
    Prop {
        id: "C18",
        quick: 600_000,
        thorough: 15_000_000,
        fuel: 5 * G,
        run: ranks,
        rule: "a distinct graph of two or more edges",
        assumptions: &["acyclic graphs of up to 100 (quick) or 150 (thorough) nodes"],
    },
    Prop {
        id: "C19",
        quick: 50_000,
        thorough: 1_200_000,
        fuel: 10 * G,
        run: crossing,
        rule: "a distinct ranked graph that starts with a crossing",
        assumptions: &[
            "edges with the same ends count once",
            "edges join adjacent rows and no row is empty, as the passes before it leave the graph",
        ],
    },
];

fn main() {
    vh::runner::main(PROPS)
}
