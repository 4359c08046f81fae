//! C15: the real module loader on real files in a scratch directory, with its file-system calls under the simulator's control.
use crate::damage::{base_texts, damage, strip_ansi};
use crate::driver::{hash_text, panic_text, Case, Outcome, VERIF};
use crate::dump::dump;
use crate::rng::Stream;
use crate::seam::{with_fs, Call, FsSim};
use dice_compiler::compiler::Compiler;
use dice_core::source::{Source, SourceKind};
use dice_runtime::module::file_loader::FileModuleLoader;
use dice_runtime::runtime::ModuleLoading;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Component, Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

/// A scratch directory of the calling thread; it goes when the thread ends.
struct Scratch(PathBuf);

static NEXT: AtomicU64 = AtomicU64::new(0);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

thread_local! {
    static SCRATCH: Scratch = {
        // A working directory of its own for this thread.
        // SAFETY: plain system call.
        if unsafe { libc::unshare(libc::CLONE_FS) } != 0 {
            panic!("cannot have a working directory per thread");
        }
        // The length of the path is the same in all processes and threads, so that nothing depends on it.
        let name = format!("{:08}-{:06}", std::process::id(), NEXT.fetch_add(1, SeqCst));
        let p = PathBuf::from(VERIF).join("work").join("loader").join(name);
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(std::fs::canonicalize(p).expect("scratch directory"))
    };
}

const DIRS: [&str; 9] = ["root", "root/sub", "root/sub/deep", "root/roo", "root2", "root2/sub", "roo", "outside", "outside/root"];
const FILES: [&str; 9] = ["a.dm", "b.dm", "é☃.dm", "sp ace.dm", ".hidden", "root", "..dm", "a", "prelude.dm"];
const WORK: [&str; 8] = ["root", "root/sub", "root", "root/roo", "outside", "root", "root2", "root"];

/// Whether a canonical path lies inside of a canonical directory.
fn inside(p: &Path, dir: &Path) -> bool {
    let (a, b): (Vec<Component>, Vec<Component>) = (p.components().collect(), dir.components().collect());
    a.len() > b.len() && a[..b.len()] == b[..]
}

struct Texts {
    all: Vec<Vec<u8>>,
}

impl Texts {
    fn pick(&self, s: &mut Stream) -> Vec<u8> {
        self.all[s.below(self.all.len() as u32) as usize].clone()
    }
}

fn some_texts(case: &Case, ps: &mut Stream, hs: &mut Stream) -> Texts {
    let (a, b, _) = base_texts(case, ps);
    let mut scrap = Outcome::default();
    let bad = damage(hs, &a, &b, &mut scrap);
    let mut torn = a.clone().into_bytes();
    torn.truncate(hs.below(torn.len() as u32 + 1) as usize);
    torn.extend_from_slice(&[0xe2, 0x98]);
    let mut binary = b.clone().into_bytes();
    binary.push(0xff);
    binary.extend_from_slice(a.as_bytes());
    let long = format!("let long = \"{}\";\nexport long;\n", "é☃ long ".repeat(200 + hs.below(3000) as usize));
    let tail = format!("{}\n//{}\nhost.tail(1);\n", b, " filler".repeat(1000 + hs.below(4000) as usize));
    let n = hs.below(1000);
    let small = format!("export let x = {};", n);
    Texts {
        all: vec![
            a.into_bytes(),
            small.into_bytes(),
            b.into_bytes(),
            Vec::new(),
            bad.into_bytes(),
            torn,
            binary,
            long.into_bytes(),
            tail.into_bytes(),
            b"\xef\xbb\xbfexport let x = 1;".to_vec(),
            b"\xef\xbb\xbf".to_vec(),
            format!("export let x = \"{}\r\n\";\r\nexport let y = 2;\r", n).into_bytes(),
            vec![0; 40],
            b"export let ".to_vec(),
        ],
    }
}

struct Tree {
    base: PathBuf,
    places: Vec<PathBuf>,
    links: Vec<PathBuf>,
}

impl Tree {
    fn build(base: &Path, s: &mut Stream, texts: &Texts) -> Tree {
        let mut t = Tree { base: base.to_path_buf(), places: Vec::new(), links: Vec::new() };
        for d in DIRS {
            std::fs::create_dir_all(base.join(d)).expect("directory");
        }
        for _ in 0..3 + s.below(5) {
            let p = t.new_place(s);
            t.write(&p, &texts.pick(s));
        }
        for _ in 0..s.below(4) {
            t.link(s);
        }
        t
    }

    fn new_place(&self, s: &mut Stream) -> PathBuf {
        // Most files are in the first directories.
        let d = DIRS[[0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8][s.below(12) as usize]];
        self.base.join(d).join(FILES[s.below(FILES.len() as u32) as usize])
    }

    fn some_place(&self, s: &mut Stream) -> PathBuf {
        match self.places.len() {
            0 => self.new_place(s),
            n => self.places[s.below(n as u32) as usize].clone(),
        }
    }

    fn clear(&self, p: &Path) {
        match std::fs::symlink_metadata(p) {
            Ok(m) if m.is_dir() => {
                let _ = std::fs::remove_dir_all(p);
            }
            Ok(_) => {
                let _ = std::fs::remove_file(p);
            }
            Err(_) => {}
        }
    }

    fn write(&mut self, p: &Path, text: &[u8]) {
        self.clear(p);
        let _ = std::fs::write(p, text);
        if !self.places.iter().any(|x| x == p) {
            self.places.push(p.to_path_buf());
        }
    }

    fn link_target(&self, s: &mut Stream) -> PathBuf {
        match s.below(9) {
            0..=3 => self.some_place(s),
            4 => self.base.join(DIRS[s.below(DIRS.len() as u32) as usize]),
            5 => PathBuf::from(["../a.dm", "sub/a.dm", "./a.dm", "../root2/a.dm", "../../outside/a.dm"][s.below(5) as usize]),
            6 => self.base.join("root").join("nothing.dm"),
            7 => PathBuf::from(["loop", "a.dm", "."][s.below(3) as usize]),
            _ => PathBuf::from("/"),
        }
    }

    fn link(&mut self, s: &mut Stream) {
        let d = DIRS[[0, 0, 0, 1, 2, 4, 7][s.below(7) as usize]];
        let name: OsString = match s.below(7) {
            0 => "link.dm".into(),
            1 => "loop".into(),
            2 => "dir".into(),
            3 => "a.dm".into(),
            4 => OsString::from_vec(b"odd\xff.dm".to_vec()),
            5 => "sub2".into(),
            _ => "link".into(),
        };
        let p = self.base.join(d).join(name);
        let target = self.link_target(s);
        self.clear(&p);
        let _ = std::os::unix::fs::symlink(target, &p);
        self.links.push(p.clone());
        self.places.push(p);
    }

    /// One change of the world between two loads.
    fn change(&mut self, s: &mut Stream, texts: &Texts) -> &'static str {
        match s.below(10) {
            0 | 1 | 2 => {
                let p = self.some_place(s);
                if std::fs::symlink_metadata(&p).map_or(true, |m| m.is_file()) {
                    self.write(&p, &texts.pick(s));
                }
                "file rewritten"
            }
            3 => {
                let p = self.some_place(s);
                self.clear(&p);
                "file removed"
            }
            4 => {
                let p = self.some_place(s);
                self.clear(&p);
                let _ = std::fs::create_dir_all(&p);
                "file replaced by a directory"
            }
            5 => {
                let p = self.new_place(s);
                self.write(&p, &texts.pick(s));
                "file created"
            }
            6 => {
                self.link(s);
                "link made"
            }
            7 => {
                let p = self.some_place(s);
                if let Ok(f) = std::fs::OpenOptions::new().append(true).open(&p) {
                    use std::io::Write;
                    let _ = (&f).write_all(b"\n// more\nhost.more();\n");
                }
                "file appended to"
            }
            8 => {
                let p = self.some_place(s);
                if let Ok(b) = std::fs::read(&p) {
                    if std::fs::symlink_metadata(&p).is_ok_and(|m| m.is_file()) {
                        let _ = std::fs::write(&p, &b[..b.len() / 2]);
                    }
                }
                "file truncated"
            }
            _ => {
                let w = WORK[s.below(WORK.len() as u32) as usize];
                if std::env::set_current_dir(self.base.join(w)).is_err() {
                    std::env::set_current_dir(self.base.join("root")).expect("chdir");
                }
                "working directory changed"
            }
        }
    }

    /// A name under which a module may be asked for.
    fn name(&self, s: &mut Stream) -> String {
        let p = self.some_place(s);
        let cwd = std::env::current_dir().unwrap_or_else(|_| self.base.join("root"));
        let relative = relative(&p, &cwd);
        let r = relative.to_string_lossy().into_owned();
        match s.below(20) {
            0..=7 => r,
            8 => format!("./{}", r),
            9 => p.to_string_lossy().into_owned(),
            10 => format!("sub/../{}", r),
            11 => format!("../{}/{}", cwd.file_name().unwrap_or_default().to_string_lossy(), r),
            12 => format!("{}/", r),
            13 => format!("{}/.", r),
            14 => format!(".//{}", r.replace('/', "//")),
            15 => format!("nothing/../{}", r),
            16 => ["", ".", "..", "/", "sub", "../root2/a.dm", "../outside/a.dm", "../roo/a.dm", "/etc/hostname", "/dev/null", "a\u{0}.dm", "prelude.dm"]
                [s.below(12) as usize]
                .to_string(),
            17 => "x".repeat(300),
            18 => format!("{} ", r),
            _ => format!("{}.dm", r),
        }
    }
}

fn relative(p: &Path, from: &Path) -> PathBuf {
    let (a, b): (Vec<Component>, Vec<Component>) = (p.components().collect(), from.components().collect());
    let same = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let mut out = PathBuf::new();
    for _ in same..b.len() {
        out.push("..");
    }
    for c in &a[same..] {
        out.push(c);
    }
    out
}

/// What loading a name has to give, as the operating system and the compiler see it when nothing goes wrong.
enum Want {
    Outside,
    /// The file is not there, no file or no text.
    Fails,
    Text(PathBuf, Vec<u8>),
}

fn want(name: &str) -> Want {
    if name.contains('\0') {
        return Want::Fails;
    }
    let (Ok(p), Ok(cwd)) = (std::fs::canonicalize(name), std::env::current_dir().and_then(std::fs::canonicalize)) else {
        return Want::Fails;
    };
    if p == cwd {
        // The root itself: a directory, whichever way it is refused.
        return Want::Fails;
    }
    if !inside(&p, &cwd) {
        return Want::Outside;
    }
    match std::fs::read(&p) {
        Ok(b) if std::str::from_utf8(&b).is_ok() => Want::Text(p, b),
        _ => Want::Fails,
    }
}

fn compiled(path: &Path, text: &[u8]) -> Option<Result<String, String>> {
    let text = std::str::from_utf8(text).ok()?;
    let r = Compiler::compile_source(Source::with_path(text, path.to_string_lossy(), SourceKind::Module));
    Some(match r {
        Ok(b) => Ok(dump(&b)),
        Err(e) => Err(strip_ansi(&format!("{}", e))),
    })
}

fn errnos(call: u32) -> libc::c_int {
    [libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOMEM, libc::ENOENT, libc::ESTALE, libc::ELOOP, libc::ENOTDIR][call as usize % 8]
}

pub fn scenario(case: &Case, verbose: bool) -> Outcome {
    let mut o = Outcome::default();
    let mut ps = case.p.open();
    let mut hs = case.h.open();
    let base = SCRATCH.with(|s| s.0.clone());
    let _ = std::env::set_current_dir("/");
    for d in ["root", "root2", "roo", "outside"] {
        let _ = std::fs::remove_dir_all(base.join(d));
    }
    let r = catch_unwind(AssertUnwindSafe(|| run(case, &base, &mut ps, &mut hs, &mut o, verbose)));
    if r.is_err() {
        o.violate("panic", format!("panic: {}", panic_text()));
    }
    let _ = std::env::set_current_dir("/");
    let b = base.to_string_lossy().into_owned();
    if let Some((_, d)) = &mut o.viol {
        *d = d.replace(&b, "$SCRATCH");
    }
    for l in &mut o.show {
        *l = l.replace(&b, "$SCRATCH").chars().take(300).collect();
    }
    o.p = std::mem::take(&mut ps.rec);
    o.h = hs.rec;
    o
}

fn run(case: &Case, base: &Path, ps: &mut Stream, hs: &mut Stream, o: &mut Outcome, verbose: bool) {
    let texts = some_texts(case, ps, hs);
    let mut tree = Tree::build(base, hs, &texts);
    std::env::set_current_dir(base.join("root")).expect("chdir");
    let mut loading: ModuleLoading<FileModuleLoader> = Default::default();
    let mut names: Vec<String> = Vec::new();
    let loads = 3 + hs.below(8);
    for _ in 0..loads {
        for _ in 0..[0, 1, 0, 2, 0][hs.below(5) as usize] {
            let what = tree.change(hs, &texts);
            o.stat("changes between loads", 1);
            if verbose {
                o.show.push(what.to_string());
            }
        }
        let name = if !names.is_empty() && hs.below(3) > 0 { names[hs.below(names.len() as u32) as usize].clone() } else { tree.name(hs) };
        if !names.contains(&name) {
            names.push(name.clone());
        }
        load(&mut tree, &mut loading, &name, true, &texts, hs, o, verbose);
        o.stat("loads", 1);
        if o.viol.is_some() {
            return;
        }
    }
    // The faults are over: every name loads as the files are now.
    for name in names {
        load(&mut tree, &mut loading, &name, false, &texts, hs, o, verbose);
        o.stat("loads after the faults", 1);
        if o.viol.is_some() {
            return;
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn load(
    tree: &mut Tree,
    loading: &mut ModuleLoading<FileModuleLoader>,
    name: &str,
    faults: bool,
    texts: &Texts,
    hs: &mut Stream,
    o: &mut Outcome,
    verbose: bool,
) {
    let before = want(name);
    let cwd = std::env::current_dir().and_then(std::fs::canonicalize).ok();
    let mut sim = FsSim::new(Stream::replay(if faults && hs.below(2) == 1 {
        (0..120).map(|_| hs.below(64)).collect()
    } else {
        Vec::new()
    }));
    sim.soft = !sim_is_empty(&sim);
    if faults {
        match hs.below(6) {
            0 | 1 => sim.hard = Some((hs.below(9), errnos(hs.below(8)))),
            2 | 3 => {
                if let Want::Text(p, _) = &before {
                    let at = hs.below(9);
                    let p = p.clone();
                    let text = texts.pick(hs);
                    let kind = hs.below(5);
                    o.fault(["concurrent replacement (rename)", "concurrent removal", "concurrent rewrite in place", "concurrent truncation", "link retargeted to the outside"][kind as usize]);
                    let links = tree.links.clone();
                    let base = tree.base.clone();
                    sim.event = Some((at, Box::new(move || change_during(kind, &p, &text, &links, &base))));
                }
            }
            _ => {}
        }
    }
    let result = with_fs(&mut sim, || catch_unwind(AssertUnwindSafe(|| loading.load(name))));
    let result = match result {
        Err(_) => {
            o.violate("panic", format!("loading {:?} panics: {}", name, panic_text()));
            return;
        }
        Ok(r) => r.map(|(id, b)| (id, dump(&b))).map_err(|e| (e.error_code().to_string(), strip_ansi(&format!("{}", e)))),
    };
    o.sim_time += sim.calls as u64;
    o.stat("file-system calls", sim.calls as u64);
    for (n, what) in [(sim.interrupts, "interrupted call"), (sim.shorts, "short read"), (sim.lies, "wrong file size reported")] {
        if n > 0 {
            *o.faults.entry(what).or_default() += n as u64;
        }
    }
    if let Some((call, _)) = sim.hit {
        o.fault(match call {
            Call::Realpath => "realpath fails",
            Call::Getcwd => "getcwd fails",
            Call::Open => "open fails",
            Call::Stat => "stat fails",
            Call::Seek => "lseek fails",
            Call::Read => "read fails",
        });
    }
    let brief = match &result {
        Ok(_) => "loaded".to_string(),
        Err((c, _)) => c.clone(),
    };
    let kind = match &before {
        Want::Outside => "outside",
        Want::Fails => "no text",
        Want::Text(..) => "text",
    };
    if verbose {
        o.show.push(format!("load {:?} ({}): {} [{}]", name, kind, brief, sim.log.join(", ")));
        if let Err((_, t)) = &result {
            o.show.extend(t.lines().map(|l| format!("  {}", l)));
        }
    }
    let step = hash_text(format!("{} {} {:?}", kind, brief, sim.log).bytes());
    o.sig = crate::rng::mix(o.sig ^ step);
    o.sigs.push(step);
    o.nontrivial |= sim.hit.is_some() || sim.happened || sim.interrupts + sim.shorts + sim.lies > 0;
    // Nothing outside of the working directory is opened, whatever happens.
    for p in &sim.opened {
        let p = Path::new(std::ffi::OsStr::from_bytes(p));
        let was = std::fs::canonicalize(p).unwrap_or_else(|_| p.to_path_buf());
        let here = cwd.as_ref().is_some_and(|c| inside(&was, c) || was == *c || !was.is_absolute());
        if !here {
            o.violate("outside", format!("loading {:?} opens {} outside of the working directory", name, was.display()));
            return;
        }
    }
    if !sim.fds.is_empty() {
        o.violate("leak", format!("loading {:?} leaves a file open", name));
        return;
    }
    // What is acceptable: the outcome without faults, the texts that were there, and an error if something went wrong.
    let mut accept: Vec<Result<String, String>> = Vec::new();
    let mut may_fail = sim.hit.is_some();
    let mut must_be_outside = false;
    match &before {
        Want::Text(p, b) => {
            accept.extend(compiled(p, b));
            if sim.happened {
                may_fail = true;
                accept.extend(compiled(p, &sim.delivered));
                if let Ok(b) = std::fs::read(p) {
                    accept.extend(compiled(p, &b));
                }
                // A name that led elsewhere in the meantime.
                match want(name) {
                    Want::Text(q, b) => accept.extend(compiled(&q, &b)),
                    _ => {}
                }
            }
        }
        Want::Fails => may_fail = true,
        Want::Outside => must_be_outside = true,
    }
    match result {
        Ok((id, code)) => {
            if id != name {
                o.violate("identity", format!("loading {:?} gives a module named {:?}", name, id));
            } else if must_be_outside {
                o.violate("outside", format!("{:?}, which is outside of the working directory, is loaded", name));
            } else if !accept.iter().any(|a| a.as_ref() == Ok(&code)) {
                o.violate("partial", format!("loading {:?} gives a program that is not that of the whole file ({})", name, kind));
            }
        }
        Err((code, text)) => {
            let note = format!("note: This issue occurred while trying to load the module \"{}\".", name);
            let Some(body) = text.strip_suffix(&format!("{}\n", note)) else {
                o.violate("unnamed", format!("the error for {:?} does not name the module: {:?}", name, text));
                return;
            };
            if accept.iter().any(|a| a.as_ref().is_err_and(|e| e == body)) {
                return;
            }
            if must_be_outside && code != "E4002" && !may_fail {
                o.violate("outside", format!("{:?} is outside of the working directory; the error is {:?}", name, text));
            } else if !must_be_outside && code == "E4002" && !sim.happened && !matches!(&before, Want::Fails) {
                o.violate("inside", format!("{:?} is inside of the working directory; the error is {:?}", name, text));
            } else if !may_fail && !must_be_outside {
                o.violate("spurious", format!("loading {:?} fails: {:?}, expected {:?}", name, text, accept));
            } else if !body.starts_with("error[") || body.lines().next().map_or(0, |l| l.len()) < 12 {
                o.violate("message", format!("the error for {:?} says nothing: {:?}", name, text));
            }
        }
    }
}

fn sim_is_empty(sim: &FsSim) -> bool {
    sim.choices.is_replay_empty()
}

fn change_during(kind: u32, p: &Path, text: &[u8], links: &[PathBuf], base: &Path) {
    match kind {
        0 => {
            let tmp = base.join("new");
            let _ = std::fs::write(&tmp, text);
            let _ = std::fs::rename(&tmp, p);
        }
        1 => {
            let _ = std::fs::remove_file(p);
        }
        2 => {
            let _ = std::fs::write(p, text);
        }
        3 => {
            if let Ok(f) = std::fs::OpenOptions::new().write(true).open(p) {
                let n = f.metadata().map_or(0, |m| m.len());
                let _ = f.set_len(n / 2);
            }
        }
        _ => {
            for l in links {
                if std::fs::symlink_metadata(l).is_ok_and(|m| m.file_type().is_symlink()) {
                    let _ = std::fs::remove_file(l);
                    let _ = std::os::unix::fs::symlink(base.join("outside").join("a.dm"), l);
                }
            }
            let _ = std::fs::write(base.join("outside").join("a.dm"), "export let secret = 1;");
        }
    }
}
