//! C14: playlist export writes every playlist, and only inside the output folder.
use super::Prop;
use crate::cli;
use crate::fw::{Ctx, Obs, R};
use crate::pldb::{self, Node, PlDb};
use crate::rng::Rng;
use crate::{bail, ensure};
use std::collections::{BTreeMap, HashMap};
use std::ffi::OsStr;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        level: "exploration",
        rule: "distinct playlist databases exported by the binary into a scratch directory, all created files compared with the model and everything around the output directory with its previous state",
        required: &[
            "exports", "exact-files", "other-files", "lines", "unknown-tracks", "names-with-separators", "dot-names", "absolute-names",
            "same-names", "long-names", "folder-file-clashes", "unhealthy", "stale-files", "relative-paths", "symlinked-export",
            "outside-entries-watched", "repeated-indices", "max:depth", "empty-playlists",
        ],
        assumptions: &[
            "names consisting of ordinary characters (no separators, backslashes or NUL, not empty or dots, at most 200 bytes, unique in their folder) are used literally; other names may be changed",
            "track paths are relative or start with one slash and hold no line breaks, as rekordbox writes them",
            "a folder without playlists need not be created",
        ],
        run,
    }
}

/// Whether a name can be and has to be used literally.
fn tidy(n: &str) -> bool {
    !n.is_empty() && n != "." && n != ".." && n.len() <= 200 && !n.contains(['/', '\\']) && !n.chars().any(char::is_control)
}

struct Want {
    /// Directory, if all ancestors have literal names.
    dir: Option<PathBuf>,
    /// File name, if literal.
    file: Option<String>,
    content: Vec<u8>,
    name: String,
}

/// Expected files of a healthy tree. Folders of the same name in the same directory share it.
fn expected(db: &PlDb, out: &Path, export: &Path, o: &mut Obs) -> Vec<Want> {
    let mut want = vec![];
    // (node ids making up this directory, directory)
    let mut dirs: Vec<(Vec<u32>, Option<PathBuf>, u64)> = vec![(vec![0], Some(out.to_path_buf()), 1)];
    while let Some((ids, dir, depth)) = dirs.pop() {
        o.ev("max:depth", depth);
        let ch: Vec<&Node> = ids.iter().flat_map(|i| db.children(*i)).collect();
        let mut folders: BTreeMap<&str, Vec<u32>> = BTreeMap::new();
        let mut files: HashMap<&str, u32> = HashMap::new();
        let odd = ch.iter().any(|n| !tidy(&n.name));
        for n in &ch {
            if n.folder != 0 {
                folders.entry(&n.name).or_default().push(n.id);
            } else {
                *files.entry(&n.name).or_default() += 1;
            }
        }
        for (name, ids) in &folders {
            // An untidy name next to it may end up with the same spelling.
            let clash = files.keys().any(|f| format!("{f}.m3u") == *name) || name.ends_with(".m3u");
            let lit = tidy(name) && !clash && !(odd && name.contains(['_', '(']));
            if clash {
                o.ev("folder-file-clashes", 1);
            }
            let d = dir.as_ref().filter(|_| lit).map(|d| d.join(name));
            dirs.push((ids.clone(), d, depth + 1));
        }
        for n in ch.iter().filter(|n| n.folder == 0) {
            let clash = folders.keys().any(|f| f.starts_with(&n.name) && f.ends_with(".m3u"));
            let same = files[n.name.as_str()] > 1;
            let near = ch.iter().any(|x| x.id != n.id && n.name.starts_with(&x.name) && n.name.ends_with(')'));
            let lit = tidy(&n.name) && !clash && !same && !near && !(odd && n.name.contains('_'));
            if same {
                o.ev("same-names", 1);
            }
            let mut content = vec![];
            let ents = db.entries_of(n.id);
            if ents.windows(2).any(|w| w[0].0 == w[1].0) {
                o.ev("repeated-indices", 1);
            }
            for (_, t) in ents {
                match db.tracks.iter().find(|x| x.id == t) {
                    Some(t) => {
                        let p = export.join(t.path.strip_prefix('/').unwrap_or(&t.path));
                        content.extend_from_slice(p.as_os_str().as_bytes());
                        content.push(b'\n');
                        o.ev("lines", 1);
                    }
                    None => o.ev("unknown-tracks", 1),
                }
            }
            if content.is_empty() {
                o.ev("empty-playlists", 1);
            }
            want.push(Want { dir: dir.clone(), file: lit.then(|| format!("{}.m3u", n.name)), content, name: n.name.clone() });
        }
    }
    want
}

fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(400).collect()
}

fn compare(want: Vec<Want>, out: &Path, o: &mut Obs) -> R {
    let mut files: BTreeMap<PathBuf, Vec<u8>> =
        cli::snapshot(out).into_iter().filter_map(|(p, c)| c.map(|c| (p, c))).collect();
    let total = want.len();
    let (exact, rest): (Vec<Want>, Vec<Want>) = want.into_iter().partition(|w| w.dir.is_some() && w.file.is_some());
    let had = files.len();
    for w in &exact {
        let p = w.dir.as_ref().unwrap().join(w.file.as_ref().unwrap());
        match files.remove(&p) {
            None => bail!("playlist not exported to its path :: {} ({had} files for {total} playlists)", p.display()),
            Some(c) if c == w.content => o.ev("exact-files", 1),
            Some(c) => bail!("exported playlist has another content :: {}: {:?} instead of {:?}", p.display(), show(&c), show(&w.content)),
        }
    }
    let (known, unknown): (Vec<Want>, Vec<Want>) = rest.into_iter().partition(|w| w.dir.is_some());
    for w in known.iter().chain(&unknown) {
        let hit = files
            .iter()
            .find(|(p, c)| **c == w.content && w.dir.as_ref().is_none_or(|d| p.parent() == Some(d)))
            .map(|(p, _)| p.clone());
        match hit {
            Some(p) => {
                files.remove(&p);
                o.ev("other-files", 1);
            }
            None => bail!(
                "playlist overwritten or not exported :: {:?} (in {:?}) with {:?}; unmatched files {:?}",
                w.name, w.dir, show(&w.content), files.iter().take(6).map(|(p, c)| (p, show(c))).collect::<Vec<_>>()
            ),
        }
    }
    ensure!(files.is_empty(), "files that belong to no playlist :: {:?}", files.keys().take(5).collect::<Vec<_>>());
    Ok(())
}

/// How names are chosen. Names only ever lead a few levels up or to absolute paths below the
/// scratch directory, and the output directory lies deeper than that.
struct Names {
    hostile: bool,
    ups: usize,
    abs: PathBuf,
    counts: [u64; 4],
}

impl Names {
    fn pick(&mut self, r: &mut Rng) -> String {
        if !self.hostile || r.chance(2, 5) {
            loop {
                let n = pldb::name(r);
                if !n.contains('/') && n != ".." {
                    return n;
                }
            }
        }
        let up = |s: &mut Self, r: &mut Rng| -> String {
            let n = r.range(1, 3).min(s.ups);
            s.ups -= n;
            "../".repeat(n)
        };
        match r.below(16) {
            0 => {
                self.counts[1] += 1;
                let u = up(self, r);
                format!("{u}up{}", r.below(9))
            }
            1 if self.ups > 0 => {
                self.counts[1] += 1;
                self.ups -= 1;
                "..".into()
            }
            2 => {
                self.counts[1] += 1;
                ".".into()
            }
            3 | 4 => {
                self.counts[2] += 1;
                format!("{}/abs{}", self.abs.display(), r.below(4))
            }
            5 => {
                self.counts[2] += 1;
                format!("{}/outside/victim", self.abs.display())
            }
            6 => {
                self.counts[0] += 1;
                (*r.pick(&["AC/DC", "a/b/c", "x/", "x//y", "Drum & Bass 160/174", "a\\b", "..\\x", "C:\\x", "C:"])).into()
            }
            7 => {
                self.counts[3] += 1;
                let n = r.range(190, 330);
                (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
            }
            8 => {
                self.counts[3] += 1;
                let n = r.range(60, 130);
                let c = *r.pick(&['é', '日', '🎧']);
                let k = r.below(4);
                format!("{}{}", "z".repeat(k), c.to_string().repeat(n))
            }
            9 => (*r.pick(&["a", "a", "a.m3u", "a (2)", "a (3)", "a (2).m3u", "A"])).into(),
            10 => (*r.pick(&["a_b", "a/b", "a\\b", "_", "", "_.", "_..", "...", ".m3u", " ", "a ", " a"])).into(),
            11 => (*r.pick(&["tab\there", "nul\0byte", "bell\u{7}", "del\u{7f}", "nl\nname", "cr\rname"])).into(),
            12 => (*r.pick(&["CON", "-rf", "--help", "~root", "$(x)", "`x`", "%s", "*?", "a:b", "a|b", "\"q\""])).into(),
            13 if self.ups > 1 => {
                self.counts[1] += 1;
                self.ups -= 1;
                "x/../y".into()
            }
            _ => (*r.pick(&["a", "b", "Mix", "Mix", "House"])).into(),
        }
    }
}

fn track_path(r: &mut Rng, id: u32) -> String {
    let mut s = String::new();
    if r.chance(4, 5) {
        s.push('/');
    }
    let mid = (*r.pick(&["Contents/Loopmasters/UnknownAlbum/", "Contents/Ünï/日本/", "a b/", "x/../y/", "", "PIONEER/", ".Hidden/", "..and more/", ".", "...", "a//b/", " a / b /", "C:\\dir\\", "~/", "100% $HOME/"])).to_string();
    s.push_str(&mid);
    s.push_str(&format!("t{id} {}.mp3", r.below(1000)));
    s
}

fn case(r: &mut Rng, o: &mut Obs, hostile: bool, unhealthy: bool) -> R {
    // Fresh directory: everything the run could touch lies below it.
    let root = o.scratch.join("exp");
    let _ = fs::remove_dir_all(&root);
    let res = case_in(&root, r, o, hostile, unhealthy);
    let _ = fs::remove_dir_all(&root);
    res
}

fn case_in(root: &Path, r: &mut Rng, o: &mut Obs, hostile: bool, unhealthy: bool) -> R {
    let io = |e: std::io::Error| format!("monitor: {e}");
    let root = {
        fs::create_dir_all(root).map_err(io)?;
        fs::canonicalize(root).map_err(io)?
    };
    let deep = root.join("d1/d2/d3/d4/d5/d6/d7/d8");
    fs::create_dir_all(&deep).map_err(io)?;
    fs::create_dir_all(root.join("outside")).map_err(io)?;
    fs::write(root.join("outside/victim.m3u"), b"precious").map_err(io)?;
    fs::write(root.join("outside/victim"), b"precious too").map_err(io)?;
    let mut names = Names { hostile, ups: 6, abs: root.clone(), counts: [0; 4] };
    let n = if hostile { r.below(25) } else if r.chance(1, 12) { r.range(50, 200) } else { r.below(25) };
    let depth = *r.pick(&[1, 2, 4, 8]);
    let mut db = PlDb { nodes: pldb::tree(r, n, depth, |r| names.pick(r)), ..PlDb::default() };
    for x in &mut db.nodes {
        // The format cannot hold control characters in one-byte strings unambiguously? It can; but
        // names must be storable.
        if !pldb::storable(&x.name) {
            x.name = "a".into();
        }
    }
    for (k, v) in ["names-with-separators", "dot-names", "absolute-names", "long-names"].iter().zip(names.counts) {
        o.ev(k, v);
    }
    if unhealthy && !db.nodes.is_empty() {
        for _ in 0..r.range(1, 3) {
            let (a, b) = (r.below(db.nodes.len()), r.below(db.nodes.len()));
            match r.below(4) {
                0 => db.nodes[a].id = db.nodes[b].id,
                1 => db.nodes[a].parent = db.nodes[b].id,
                2 => db.nodes[a].id = 0,
                _ => {
                    let x = db.nodes[a].clone();
                    db.nodes.push(x);
                }
            }
        }
        o.ev("unhealthy", 1);
    }
    db.add_content(r, track_path);
    let bytes = db.build(r).encode();
    o.input("export.pdb", &bytes);
    o.mark(format!("{db:?}").as_bytes());
    o.sample(format!("{:?}", db.nodes));

    let exp = root.join(if r.chance(1, 3) { "my export é" } else { "export" });
    fs::create_dir_all(exp.join("PIONEER/rekordbox")).map_err(io)?;
    fs::write(exp.join("PIONEER/rekordbox/export.pdb"), &bytes).map_err(io)?;
    let mut exp_arg = exp.clone();
    if r.chance(1, 5) {
        exp_arg = root.join("link");
        std::os::unix::fs::symlink(&exp, &exp_arg).map_err(io)?;
        o.ev("symlinked-export", 1);
    }
    let out = deep.join(*r.pick(&["out", "new/out dir"]));
    let existing = r.chance(1, 2);
    if existing {
        fs::create_dir_all(&out).map_err(io)?;
    }
    let canon = fs::canonicalize(&exp).map_err(io)?;
    let want = if unhealthy { vec![] } else { expected(&db, &out, &canon, o) };
    if existing && r.chance(1, 3) {
        // Longer files from an earlier export.
        for w in &want {
            if let (Some(d), Some(f)) = (&w.dir, &w.file) {
                if r.chance(1, 3) {
                    fs::create_dir_all(d).map_err(io)?;
                    fs::write(d.join(f), "/stale/line.mp3\n".repeat(40)).map_err(io)?;
                    o.ev("stale-files", 1);
                }
            }
        }
    }
    let before: BTreeMap<_, _> = cli::snapshot(&root).into_iter().filter(|(p, _)| !p.starts_with(&out)).collect();
    let (mut cwd, mut ea, mut oa) = (root.clone(), exp_arg.clone(), out.clone());
    match r.below(4) {
        0 => {
            ea = exp_arg.strip_prefix(&root).unwrap().into();
            oa = out.strip_prefix(&root).unwrap().into();
            o.ev("relative-paths", 1);
        }
        1 => {
            cwd = deep.clone();
            oa = out.strip_prefix(&deep).unwrap().into();
            o.ev("relative-paths", 1);
        }
        2 => {
            oa = PathBuf::from(format!("{}/", out.display()));
            ea = PathBuf::from(format!("{}/.", ea.display()));
        }
        _ => {}
    }
    let runs = if r.chance(1, 6) { 2 } else { 1 };
    for i in 0..runs {
        let res = cli::run(o.scratch, &cwd, &[OsStr::new("export-playlists"), ea.as_os_str(), oa.as_os_str()])?;
        if unhealthy {
            res.clean("export-playlists")?;
        } else {
            res.ok("export-playlists")?;
        }
        // Nothing around the output directory may have changed.
        let after = cli::snapshot(&root);
        for (p, c) in &after {
            if p.starts_with(&out) || out.starts_with(p) {
                continue;
            }
            match before.get(p) {
                None => bail!("created outside the output directory :: {} for names {:?}", p.display(), db.nodes.iter().map(|n| &n.name).collect::<Vec<_>>()),
                Some(x) if x != c => bail!("changed outside the output directory :: {}", p.display()),
                _ => {}
            }
        }
        for p in before.keys() {
            ensure!(after.contains_key(p), "removed outside the output directory :: {}", p.display());
        }
        o.ev("outside-entries-watched", before.len() as u64);
        if !unhealthy {
            let want = expected(&db, &out, &canon, &mut o.fork());
            compare(want, &out, o).map_err(|e| if i > 0 { format!("second export: {e}") } else { e })?;
        }
        o.ev("exports", 1);
    }
    Ok(())
}

/// Entry order, in particular large and far apart indices, with distinct tracks.
fn order(r: &mut Rng, o: &mut Obs) -> R {
    let root = o.scratch.join("exp");
    let _ = fs::remove_dir_all(&root);
    let io = |e: std::io::Error| format!("monitor: {e}");
    fs::create_dir_all(root.join("e/PIONEER/rekordbox")).map_err(io)?;
    let canon = fs::canonicalize(root.join("e")).map_err(io)?;
    let n = r.range(1, 120);
    let mut db = PlDb { nodes: pldb::tree(r, 3, 1, |r| format!("p{}", r.u32())), ..PlDb::default() };
    for i in 0..n as u32 {
        let id = r.u32_edgy() / 2 + i;
        if db.tracks.iter().any(|t| t.id == id) {
            continue;
        }
        let path = track_path(r, id);
        db.tracks.push(pldb::Tr { id, artist: 1, title: format!("t{i}"), path });
    }
    for p in db.nodes.clone() {
        let mut used = std::collections::HashSet::new();
        for t in db.tracks.clone() {
            let ix = if r.chance(1, 2) { r.u32_edgy() } else { r.below(200) as u32 };
            if used.insert(ix) {
                db.entries.push((ix, t.id, p.id));
            }
        }
    }
    r.shuffle(&mut db.entries);
    r.shuffle(&mut db.tracks);
    let bytes = db.build(r).encode();
    o.input("export.pdb", &bytes);
    o.mark(&bytes);
    fs::write(root.join("e/PIONEER/rekordbox/export.pdb"), &bytes).map_err(io)?;
    let res = cli::run(o.scratch, &root, &cli::args(&["export-playlists", "e", "o"]))?;
    res.ok("export-playlists")?;
    let want = expected(&db, &root.join("o"), &canon, o);
    compare(want, &root.join("o"), o)?;
    o.ev("exports", 1);
    let _ = fs::remove_dir_all(&root);
    Ok(())
}

fn run(c: &mut Ctx) {
    for _ in 0..c.n(2500) {
        c.case("plain names", |r, o| case(r, o, false, false));
    }
    for _ in 0..c.n(5000) {
        c.case("special names", |r, o| case(r, o, true, false));
    }
    for _ in 0..c.n(1500) {
        c.case("no tree", |r, o| case(r, o, true, true));
    }
    for _ in 0..c.n(1000) {
        c.case("entry order", order);
    }
}
