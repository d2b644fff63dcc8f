//! C13: the playlist tree mirrors the stored nodes and is always finite.
use super::pdbutil::*;
use super::Prop;
use crate::cli;
use crate::fw::{no_panic, Ctx, Obs, R};
use crate::hostile::print_len;
use crate::pldb::{self, Node, PlDb};
use crate::refpdb as m;
use crate::rng::Rng;
use crate::{bail, ensure};
use rekordcrate::device::{get_playlists, PlaylistNode};
use rekordcrate::DeviceExportLoader;
use std::collections::{HashMap, HashSet};

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        level: "exploration",
        rule: "distinct playlist-tree tables whose reported tree was compared node by node with the stored rows",
        required: &[
            "exact-trees", "exact-nodes", "max:depth", "orphans", "unreachable-cycles", "listings", "reachable-cycles", "duplicate-ids",
            "root-id-nodes", "playlist-children", "too-deep", "undecodable-names", "refused", "deleted-rows", "device-trees", "fixture-trees", "bounded-trees",
        ],
        assumptions: &[
            "stored order is the order in which the rows are stored in the table",
            "trees up to 100 levels deep have to be reported; deeper ones may be refused",
            "nodes below a playlist (rather than a folder) may be reported or not",
        ],
        run,
    }
}

/// Flattened tree: (depth, parent id, id, folder?, name).
type Flat = Vec<(usize, u32, u32, bool, String)>;

fn flatten(v: &[PlaylistNode], depth: usize, parent: u32, out: &mut Flat) {
    for n in v {
        match n {
            PlaylistNode::Folder(f) => {
                out.push((depth, parent, f.id.0, true, f.name.clone()));
                flatten(&f.children, depth + 1, f.id.0, out);
            }
            PlaylistNode::Playlist(p) => out.push((depth, parent, p.id.0, false, p.name.clone())),
        }
    }
}

/// The tree the stored rows describe; only for healthy reachable parts.
fn reference(nodes: &[Node]) -> Flat {
    let mut by: HashMap<u32, Vec<&Node>> = HashMap::new();
    for n in nodes {
        by.entry(n.parent).or_default().push(n);
    }
    fn go(by: &HashMap<u32, Vec<&Node>>, id: u32, depth: usize, out: &mut Flat) {
        for n in by.get(&id).into_iter().flatten() {
            out.push((depth, id, n.id, n.folder != 0, n.name.clone()));
            if n.folder != 0 {
                go(by, n.id, depth + 1, out);
            }
        }
    }
    let mut out = vec![];
    go(&by, 0, 0, &mut out);
    out
}

/// Whether the rows reachable from the root form a tree in which every node is a distinct folder
/// or leaf, at most `max` levels deep.
fn healthy(nodes: &[Node], max: usize) -> bool {
    let mut by: HashMap<u32, Vec<&Node>> = HashMap::new();
    for n in nodes {
        by.entry(n.parent).or_default().push(n);
    }
    let mut seen = HashSet::from([0u32]);
    let mut todo = vec![(0u32, 0usize)];
    while let Some((id, d)) = todo.pop() {
        if d > max {
            return false;
        }
        for n in by.get(&id).into_iter().flatten() {
            if !seen.insert(n.id) || (n.folder == 0 && by.contains_key(&n.id)) {
                return false;
            }
            todo.push((n.id, d + 1));
        }
    }
    true
}

/// Ids that an expansion starting at the root can reach at all.
fn reachable(nodes: &[Node], through_playlists: bool) -> HashSet<usize> {
    let mut ids = HashSet::from([0u32]);
    let mut rows = HashSet::new();
    loop {
        let before = rows.len();
        for (i, n) in nodes.iter().enumerate() {
            if ids.contains(&n.parent) && rows.insert(i) && (through_playlists || n.folder != 0) {
                ids.insert(n.id);
            }
        }
        if rows.len() == before {
            return rows;
        }
    }
}

fn run_tree(bytes: &[u8]) -> Result<Result<Vec<PlaylistNode>, String>, String> {
    let mut db = open_ro(bytes, false)?;
    Ok(no_panic("get_playlists", || get_playlists(&mut db))?.map_err(|e| e.to_string()))
}

/// The same tree through the loader of a device export.
fn through_device(bytes: &[u8], want: &Flat, o: &mut Obs) -> R {
    let io = |e: std::io::Error| format!("monitor: scratch directory: {e}");
    let root = o.scratch.join("device");
    let dir = root.join("PIONEER").join("rekordbox");
    let file = dir.join("export.pdb");
    std::fs::create_dir_all(&dir).map_err(io)?;
    let _ = std::fs::remove_file(&file);
    let dev = DeviceExportLoader::new(root.clone());
    ensure!(dev.get_path() == root, "path of the device is {:?}", dev.get_path());
    ensure!(no_panic("open_pdb_non_persistent", || dev.open_pdb_non_persistent())?.is_err(), "absent database is opened");
    std::fs::write(&file, bytes).map_err(io)?;
    let mut db = no_panic("open_pdb_non_persistent", || dev.open_pdb_non_persistent())?
        .map_err(|e| format!("database of a device refused :: {e}"))?;
    for _ in 0..2 {
        let tree = no_panic("get_playlists", || get_playlists(&mut db))?.map_err(|e| format!("playlists of a device refused :: {e}"))?;
        let mut got = vec![];
        flatten(&tree, 0, 0, &mut got);
        ensure!(got == *want, "tree of a device differs from the tree of its database :: {got:?} instead of {want:?}");
    }
    drop(db);
    ensure!(std::fs::read(&file).map_err(io)? == bytes, "listing playlists changed the database");
    o.ev("device-trees", 1);
    Ok(())
}

fn exact(got: &Flat, want: &Flat) -> R {
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            None => bail!("node missing from the tree :: {w:?} after {:?}", got.last()),
            Some(g) if g == w => {}
            Some(g) => bail!("tree differs from the stored nodes :: position {i}: {g:?} instead of {w:?}"),
        }
    }
    ensure!(got.len() == want.len(), "tree has more nodes than stored :: {:?}", got[want.len()]);
    Ok(())
}

fn listing(flat: &Flat) -> String {
    flat.iter().map(|(d, _, _, f, n)| format!("{}{} {n}\n", "    ".repeat(*d), if *f { "🗀" } else { "🗎" })).collect()
}

fn check(db: &PlDb, r: &mut Rng, o: &mut Obs, with_cli: bool) -> R {
    let dbm = db.build(r);
    let bytes = dbm.encode();
    o.input("playlist database", &bytes);
    o.mark(format!("{:?}", db.nodes).as_bytes());
    o.sample(format!("{:?}", db.nodes));
    for t in &dbm.tables {
        for p in &t.pages {
            if let m::Body::Data(d) = &dbm.page(*p).body {
                o.ev("deleted-rows", (d.slots.len() - d.present()) as u64);
            }
        }
    }
    let ok = healthy(&db.nodes, 100);
    let res = run_tree(&bytes)?;
    match res {
        Ok(tree) => {
            let mut got = vec![];
            flatten(&tree, 0, 0, &mut got);
            if r.chance(1, 8) {
                through_device(&bytes, &got, o)?;
            }
            if healthy(&db.nodes, 100_000) {
                let want = reference(&db.nodes);
                exact(&got, &want)?;
                o.ev("exact-trees", 1);
                o.ev("exact-nodes", want.len() as u64);
                o.ev("max:depth", want.iter().map(|x| x.0 as u64 + 1).max().unwrap_or(0));
                o.ev("orphans", (db.nodes.len() - want.len()) as u64);
            } else {
                bounded(db, &got)?;
                o.ev("bounded-trees", 1);
            }
            let n = no_panic("print", || print_len(&tree))?;
            o.ev("printed", n);
        }
        Err(e) => {
            ensure!(!ok, "healthy playlist tree refused :: {e}");
            o.ev("refused", 1);
        }
    }
    if with_cli {
        let f = o.scratch.join("list.pdb");
        std::fs::write(&f, &bytes).map_err(|e| e.to_string())?;
        let out = cli::run(o.scratch, o.scratch, &cli::args(&["list-playlists", "list.pdb"]))?;
        if ok {
            out.ok("list-playlists")?;
            let want = listing(&reference(&db.nodes));
            let got = out.text();
            if got != want {
                let i = got.lines().zip(want.lines()).take_while(|(a, b)| a == b).count();
                bail!("listing differs from the stored nodes :: line {}: {:?} instead of {:?}", i + 1, got.lines().nth(i), want.lines().nth(i));
            }
        } else {
            out.clean("list-playlists")?;
            // Every stored node at most once.
            let lines = out.text().lines().count();
            ensure!(lines <= db.nodes.len(), "listing repeats nodes :: {lines} lines for {} nodes", db.nodes.len());
            if out.code == Some(0) {
                let need = reachable(&db.nodes, false).len();
                ensure!(lines >= need, "listing misses nodes :: {lines} lines for {need} reachable nodes");
            }
        }
        o.ev("listings", 1);
    }
    Ok(())
}

/// Tables that are no tree: every reachable row exactly once, below a node with its parent's id.
fn bounded(db: &PlDb, got: &Flat) -> R {
    let mut left: HashMap<(u32, u32, bool, &str), i64> = HashMap::new();
    for n in &db.nodes {
        *left.entry((n.parent, n.id, n.folder != 0, n.name.as_str())).or_default() += 1;
    }
    for (_, p, id, f, name) in got {
        match left.get_mut(&(*p, *id, *f, name.as_str())) {
            None => bail!("reported node is not stored :: parent {p} id {id} {name:?}"),
            Some(0) => bail!("stored node reported more than once :: parent {p} id {id} {name:?}"),
            Some(x) => *x -= 1,
        }
    }
    for i in reachable(&db.nodes, false) {
        let n = &db.nodes[i];
        let x = left[&(n.parent, n.id, n.folder != 0, n.name.as_str())];
        ensure!(x == 0, "reachable node not reported :: {n:?}");
    }
    Ok(())
}

/// A name that is no text cannot be mirrored: the tree is refused, not reported with another name.
fn undecodable(r: &mut Rng, o: &mut Obs) -> R {
    let n = r.range(1, 30);
    let depth = *r.pick(&[1, 3, 8]);
    let mut v = pldb::tree(r, n, depth, pldb::name);
    let k = r.below(v.len());
    let wide = r.chance(1, 2);
    v[k].name = if wide { "QZXJ\u{e9}".into() } else { "QZXJ".into() };
    let mut b = plain(v).build(r).encode();
    let (mark, bad): (Vec<u8>, Vec<u8>) = if wide {
        let lone = *r.pick(&[0xd8u8, 0xdb, 0xdc, 0xdf]);
        ("QZXJ".encode_utf16().flat_map(u16::to_le_bytes).collect(), vec![0x51, 0, 0x5a, 0, 0x58, 0, r.u8(), lone])
    } else {
        (b"QZXJ".to_vec(), vec![b'Q', b'Z', *r.pick(&[0x80u8, 0xc3, 0xff]), b'J'])
    };
    // Deleted rows can be copies of it.
    let at: Vec<usize> = (0..b.len() - mark.len()).filter(|i| b[*i..].starts_with(&mark)).collect();
    ensure!(!at.is_empty(), "monitor: name not found");
    for i in at {
        b[i..i + bad.len()].copy_from_slice(&bad);
    }
    o.input("playlist database", &b);
    o.mark(&b);
    if let Ok(tree) = run_tree(&b)? {
        let mut got = vec![];
        flatten(&tree, 0, 0, &mut got);
        bail!("a name that is no text is reported as another name :: {got:?}");
    }
    o.ev("undecodable-names", 1);
    Ok(())
}

fn plain(nodes: Vec<Node>) -> PlDb {
    PlDb { nodes, ..PlDb::default() }
}

fn run(c: &mut Ctx) {
    for _ in 0..c.n(300) {
        c.case("undecodable", undecodable);
    }
    for i in 0..c.n(3000) {
        c.case("healthy", move |r, o| {
            let n = if r.chance(1, 10) { r.range(60, 400) } else { r.below(40) };
            let depth = *r.pick(&[2, 5, 20, 100]);
            let mut v = pldb::tree(r, n, depth, pldb::name);
            // Orphans and cycles that the root does not reach.
            if r.chance(1, 3) {
                let base = 0xF000_0000u32;
                let k = r.range(1, 6) as u32;
                for j in 0..k {
                    let parent = if r.chance(1, 2) { base + (j + 1) % k } else { base + 0x100 + j };
                    let at = r.below(v.len() + 1);
                    v.insert(at, Node { parent, id: base + j, folder: r.below(2) as u32, name: pldb::name(r) });
                    o.ev("unreachable-cycles", 1);
                }
            }
            check(&plain(v), r, o, i % 6 == 0)
        });
    }
    // Every nesting depth that has to be reported, as chains with siblings.
    for depth in 1..=100usize {
        c.case("chain", move |r, o| {
            let mut v = vec![];
            for d in 0..depth as u32 {
                v.push(Node { parent: d, id: d + 1, folder: 1, name: format!("f{d}") });
                if r.chance(1, 3) {
                    v.push(Node { parent: d, id: 1000 + d, folder: 0, name: format!("p{d}") });
                }
            }
            if r.chance(1, 2) {
                r.shuffle(&mut v);
            }
            check(&plain(v), r, o, depth % 10 == 0)
        });
    }
    for i in 0..c.n(1500) {
        c.case("unhealthy", move |r, o| {
            let n = r.range(1, 30);
            let mut v = pldb::tree(r, n, 6, pldb::name);
            for _ in 0..r.range(1, 4) {
                let a = r.below(v.len());
                let b = r.below(v.len());
                match r.below(7) {
                    // A duplicate of an id that is in use, as folder or playlist.
                    0 => {
                        v[a].id = v[b].id;
                        o.ev("duplicate-ids", 1);
                    }
                    1 => {
                        let x = v[a].clone();
                        v.push(x);
                        o.ev("duplicate-ids", 1);
                    }
                    // A node below its own descendant, still reachable through a duplicate.
                    2 => {
                        let mut x = v[a].clone();
                        x.parent = v[b].id;
                        v.push(x);
                        o.ev("reachable-cycles", 1);
                    }
                    3 => {
                        // A node with the id of the root.
                        v[a].id = 0;
                        v[a].folder = 1;
                        o.ev("root-id-nodes", 1);
                    }
                    4 => {
                        let x = Node { parent: v[a].id, id: v[a].id, folder: 1, name: pldb::name(r) };
                        v.push(x);
                        o.ev("reachable-cycles", 1);
                    }
                    5 => {
                        // Children of a playlist.
                        v[a].folder = 0;
                        let id = 0xE000_0000 + r.below(1000) as u32;
                        let x = Node { parent: v[a].id, id, folder: r.below(2) as u32, name: pldb::name(r) };
                        v.push(x);
                        o.ev("playlist-children", 1);
                    }
                    _ => {
                        v[a].parent = v[b].id;
                        v[b].folder = 1;
                    }
                }
            }
            if r.chance(1, 2) {
                r.shuffle(&mut v);
            }
            check(&plain(v), r, o, i % 6 == 0)
        });
    }
    // Nesting that no stack holds.
    for depth in [101usize, 127, 128, 129, 130, 200, 500, 2000, 20_000] {
        for rep in 0..c.n(1) {
            c.case("deep", move |r, o| {
                let mut v: Vec<Node> =
                    (0..depth as u32).map(|d| Node { parent: d, id: d + 1, folder: 1, name: String::new() }).collect();
                if rep == 1 {
                    v.reverse();
                }
                o.ev("too-deep", 1);
                check(&plain(v), r, o, true)
            });
        }
    }
    // Dense tangles: without care the expansion is exponential.
    for k in [2u32, 3, 8, 30] {
        c.case("tangle", move |r, o| {
            let mut v = vec![];
            for l in 0..25u32 {
                for j in 0..k {
                    // k folders of the same id per level: k^25 paths.
                    v.push(Node { parent: l, id: l + 1, folder: 1, name: format!("{l}-{j}") });
                }
            }
            o.ev("duplicate-ids", u64::from(k));
            check(&plain(v), r, o, true)
        });
        c.case("clique", move |r, o| {
            let mut v = vec![];
            for a in 0..=k {
                for b in 0..=k {
                    v.push(Node { parent: a, id: b, folder: 1, name: format!("{a}-{b}") });
                }
            }
            r.shuffle(&mut v);
            o.ev("reachable-cycles", 1);
            check(&plain(v), r, o, true)
        });
    }
    for f in super::c08::fixtures() {
        c.case("fixture", move |_, o| {
            let b = std::fs::read(&f).map_err(|e| e.to_string())?;
            if f.to_string_lossy().contains("Ext") {
                return Ok(());
            }
            let mut db = open_ro(&b, false)?;
            // The stored nodes, as their Debug output shows them.
            let mut nodes = vec![];
            use fallible_iterator::FallibleIterator;
            let Ok(mut it) = db.iter_rows::<rekordcrate::pdb::PlaylistTreeNode>() else { return Ok(()) };
            while let Some(n) = no_panic("iteration", || it.next())?.map_err(|e| format!("fixture row :: {e}"))? {
                let name = n.name.clone().into_string().map_err(|e| e.to_string())?;
                nodes.push(Node { parent: n.parent_id.0, id: n.id.0, folder: n.is_folder().into(), name });
            }
            drop(it);
            let mut got = vec![];
            flatten(&run_tree(&b)?.map_err(|e| format!("fixture refused :: {e}"))?, 0, 0, &mut got);
            exact(&got, &reference(&nodes))?;
            o.mark(&b);
            o.ev("fixture-trees", 1);
            Ok(())
        });
    }
}
