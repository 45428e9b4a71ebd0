//! P17 on whole programs: what every file contains after every command.

use crate::basic::*;
use crate::desk::Desk;
use crate::nd::Nd;
use endbasic_core::ConstantDatum;
use endbasic_repl::editor::Editor;
use endbasic_std::console::Key;
use endbasic_std::program::Program;
use endbasic_std::storage::{DirectoryDriveFactory, Storage};
use futures_lite::future::block_on;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};

/// Files that this thread creates or removes are those of an unprivileged user.
struct Unprivileged;

extern "C" {
    fn setfsuid(uid: u32) -> i32;
    fn setfsgid(gid: u32) -> i32;
    fn chown(path: *const std::ffi::c_char, uid: u32, gid: u32) -> i32;
}
const NOBODY: u32 = 65534;

impl Unprivileged {
    /// Returns nothing if the user cannot be changed.
    fn new() -> Option<Self> {
        unsafe {
            setfsgid(NOBODY);
            setfsuid(NOBODY);
            let guard = Unprivileged;
            (setfsuid(u32::MAX) != 0).then_some(guard)
        }
    }
}

impl Drop for Unprivileged {
    fn drop(&mut self) {
        unsafe {
            setfsuid(0);
            setfsgid(0);
        }
    }
}

/// A directory with the directories of drives, and files that no drive may reach.
struct Scratch {
    top: PathBuf,
    inner: PathBuf,
    /// Whether files on the disk can be used.
    user: Option<Unprivileged>,
}

impl Scratch {
    fn new() -> Self {
        static NEXT: AtomicUsize = AtomicUsize::new(0);
        let top = std::env::temp_dir().join(format!("vp17-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        let inner = top.join("a/b/c");
        std::fs::create_dir_all(&inner).unwrap();
        for dir in [&top, &top.join("a"), &top.join("a/b"), &inner] {
            let path = std::ffi::CString::new(dir.to_str().unwrap()).unwrap();
            unsafe { chown(path.as_ptr(), NOBODY, NOBODY) };
        }
        let user = Unprivileged::new();
        for dir in [&top, &top.join("a"), &top.join("a/b"), &inner] {
            std::fs::write(dir.join("foo.bas"), "outside").unwrap();
            std::fs::write(dir.join("foo"), "outside").unwrap();
        }
        Self { top, inner, user }
    }

    /// The files outside of the drives.
    fn outside(&self) -> Vec<(PathBuf, Vec<u8>)> {
        let mut found = vec![];
        for dir in [&self.top, &self.top.join("a"), &self.top.join("a/b"), &self.inner] {
            for (name, content) in files_of(dir) {
                found.push((dir.join(name), content));
            }
        }
        found
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        self.user = None;
        let _ = std::fs::remove_dir_all(&self.top);
    }
}

type Files = BTreeMap<String, Vec<u8>>;

/// The files directly in a directory.
fn files_of(dir: &Path) -> Files {
    let mut files = Files::new();
    for e in std::fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        if e.file_type().unwrap().is_file() {
            files.insert(e.file_name().into_string().unwrap(), std::fs::read(e.path()).unwrap());
        }
    }
    files
}

/// Where the files of a drive are.
#[derive(Clone, Debug, Eq, PartialEq, PartialOrd, Ord)]
enum Place {
    Memory(usize),
    Directory(String),
}

/// What should be.
struct Model {
    files: BTreeMap<Place, Files>,
    drives: BTreeMap<String, Place>,
    current: String,
    text: String,
    name: Option<String>,
    dirty: bool,
}

/// What a text names: a mounted drive and, unless it is the root of the drive, a file in it.
type Target = Option<(String, Option<String>)>;

impl Model {
    /// Parses a path, which may be in a drive that is not mounted.
    fn parse(&self, s: &str) -> Target {
        let (drive, path) = match s.split_once(':') {
            Some((d, p)) => (Some(d), p),
            None => (None, s),
        };
        let drive = match drive {
            Some(d) if d.is_empty() || d.contains(['\\', '/', '.']) => return None,
            Some(d) => d.to_uppercase(),
            None => self.current.clone(),
        };
        if path.is_empty() || path == "/" {
            return Some((drive, None));
        }
        let leaf = path.strip_prefix('/').unwrap_or(path);
        let ok = !leaf.is_empty() && !leaf.contains(['/', '\\', ':']) && leaf != "." && leaf != "..";
        ok.then(|| (drive, Some(leaf.to_owned())))
    }

    /// Which file a path names, if its drive is mounted.
    fn file(&self, s: &str) -> Option<(Place, String)> {
        let (d, f) = self.parse(s)?;
        Some((self.drives.get(&d)?.clone(), f?))
    }

    fn program(&self, s: &str) -> Option<(String, Place, String)> {
        let (d, f) = self.parse(s)?;
        let (place, mut f) = (self.drives.get(&d)?.clone(), f?);
        if !f.contains('.') {
            f += if f.chars().any(|c| c.is_ascii_lowercase()) { ".bas" } else { ".BAS" };
        }
        Some((d, place, f))
    }
}

/// A literal.
fn quote(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\"))
}

struct World {
    scratch: Scratch,
    session: Session<Desk>,
    storage: Rc<RefCell<Storage>>,
    program: Rc<RefCell<Editor>>,
    model: Model,
    memories: usize,
    log: Vec<String>,
}

/// Texts that name files, roots of drives, or nothing.
fn path(n: &mut impl Nd, w: &World) -> String {
    const DRIVES: [&str; 14] = ["", "", "", "memory:", "MEMORY:", "Memory:", "d:", "D:", "e:", "E:", "dé:", "nope:", ":", "a.b:"];
    const NAMES: [&str; 26] = [
        "foo", "foo", "/foo", "foo.bas", "/foo.bas", "FOO", "Foo.x", "a b", "é", "x.", ".bas", "..x", "12", "", "/", ".", "..", "/.", "/..", "../foo", "../../foo.bas", "a/b", "foo/",
        "a\\b", "c:d", "sub/../foo",
    ];
    let drive = DRIVES[n.below(DRIVES.len())];
    match n.below(40) {
        0 => format!("{}/{}/foo", drive, w.scratch.inner.display()),
        1 => format!("{}{}/foo.bas", drive, w.scratch.top.display()),
        2 => format!("/{}foo", drive),
        3..=20 => format!("{}{}", drive, NAMES[n.below(13)]),
        _ => format!("{}{}", drive, NAMES[n.below(NAMES.len())]),
    }
}

impl World {
    fn new() -> Self {
        let scratch = Scratch::new();
        let storage = Rc::from(RefCell::from(Storage::default()));
        storage.borrow_mut().register_scheme("file", Box::from(DirectoryDriveFactory::default()));
        let program = Rc::from(RefCell::from(Editor::default()));
        let session = Session::with(Desk::new(60, 20), 1_000_000, |b| b.make_interactive().with_storage(storage.clone()).with_program(program.clone()).build());
        let model = Model {
            files: [(Place::Memory(0), Files::new())].into(),
            drives: [("MEMORY".to_owned(), Place::Memory(0))].into(),
            current: "MEMORY".to_owned(),
            text: String::new(),
            name: None,
            dirty: false,
        };
        Self { scratch, session, storage, program, model, memories: 1, log: vec![] }
    }

    /// Runs a command and says whether it worked.
    fn command(&mut self, text: &str) -> bool {
        self.log.push(text.to_owned());
        let out = self.session.run(text);
        assert!(!out.rejected, "{:?} {:?}", self.log, out.error);
        out.error.is_none()
    }

    fn edit(&mut self, n: &mut impl Nd) {
        let mut keys = vec![];
        for _ in 0..n.below(6) {
            keys.push(match n.below(8) {
                0 => Key::NewLine,
                1 => Key::Char('é'),
                2 => Key::Delete,
                3 => Key::ArrowDown,
                4 => Key::Backspace,
                i => Key::Char((b'a' + i as u8) as char),
            });
        }
        self.log.push(format!("{:?}", keys));
        keys.push(Key::Escape);
        self.session.console.borrow_mut().keys.extend(keys);
        assert!(self.command("EDIT"));
        let text = self.program.borrow().text();
        let dirty = self.program.borrow().is_dirty();
        // Merely opening an empty program gives it an empty line.
        let was = if self.model.text.is_empty() { "\n" } else { &self.model.text };
        assert!(dirty || text == was, "{:?}: changes are not noticed", self.log);
        assert!(dirty || !self.model.dirty, "{:?}: changes are forgotten", self.log);
        self.model.text = text;
        self.model.dirty = dirty;
    }

    /// Whether changes may be discarded, which is asked for if there are any.
    fn confirm(&mut self, n: &mut impl Nd) -> bool {
        const YES: [&str; 6] = ["y", "Y", "yes", "Yes", "true", "TRUE"];
        const NO: [&str; 8] = ["n", "no", "", "yy", "maybe", "false", "1", "NO"];
        if !self.model.dirty {
            return true;
        }
        let yes = n.bool();
        let answer = if yes { YES[n.below(YES.len())] } else { NO[n.below(NO.len())] };
        self.log.push(format!("(answers {:?})", answer));
        let mut console = self.session.console.borrow_mut();
        console.keys.extend(answer.chars().map(Key::Char));
        console.keys.push_back(Key::NewLine);
        yes
    }

    fn save(&mut self, n: &mut impl Nd) {
        let named = n.bool() || n.bool();
        let given = if named { Some(path(n, self)) } else { self.model.name.clone() };
        let target = given.as_ref().and_then(|p| self.model.program(p));
        let ok = self.command(&if named { format!("SAVE {}", quote(&given.unwrap())) } else { "SAVE".to_owned() });
        assert_eq!(target.is_some(), ok, "{:?}", self.log);
        if let Some((d, place, f)) = target {
            self.model.files.get_mut(&place).unwrap().insert(f.clone(), self.model.text.clone().into_bytes());
            self.saved_as(&d, &f);
            self.model.dirty = false;
        }
    }

    /// The name of the program leads to the file, however it is written.
    fn saved_as(&mut self, drive: &str, file: &str) {
        let name = self.program.borrow().name().map(str::to_owned);
        let leads = name.as_deref().and_then(|n| self.model.parse(n));
        assert_eq!(Some((drive.to_owned(), Some(file.to_owned()))), leads, "{:?}", self.log);
        self.model.name = name;
    }

    fn load(&mut self, n: &mut impl Nd) {
        let p = path(n, self);
        let target = self.model.program(&p);
        let go = self.confirm(n);
        let ok = self.command(&format!("LOAD {}", quote(&p)));
        if !go {
            assert!(ok, "{:?}", self.log);
            return;
        }
        let found = target.and_then(|(d, place, f)| self.model.files[&place].get(&f).cloned().map(|c| (d, f, c)));
        match found.map(|(d, f, c)| (d, f, String::from_utf8(c))) {
            Some((d, f, Ok(text))) => {
                assert!(ok, "{:?}", self.log);
                let lines: Vec<&str> = text.lines().collect();
                self.model.text = lines.iter().map(|l| format!("{}\n", l)).collect();
                self.model.dirty = false;
                self.saved_as(&d, &f);
            }
            _ => assert!(!ok, "{:?}", self.log),
        }
    }

    fn step(&mut self, n: &mut impl Nd) {
        match n.below(14) {
            0 | 1 => self.edit(n),
            2 | 3 => self.save(n),
            4 | 5 => self.load(n),
            6 => {
                let go = self.confirm(n);
                assert!(self.command("NEW"), "{:?}", self.log);
                if go {
                    self.model.text = String::new();
                    self.model.name = None;
                    self.model.dirty = false;
                }
            }
            7 => {
                let p = path(n, self);
                let worked = match self.model.file(&p) {
                    Some((place, f)) => self.model.files.get_mut(&place).unwrap().remove(&f).is_some(),
                    None => false,
                };
                assert_eq!(worked, self.command(&format!("KILL {}", quote(&p))), "{:?}", self.log);
            }
            8 | 9 => {
                let (p, q) = (path(n, self), path(n, self));
                let src = self.model.file(&p);
                let dest = match self.model.parse(&q) {
                    Some((d, f)) => src.as_ref().and_then(|s| Some((self.model.drives.get(&d)?.clone(), f.unwrap_or(s.1.clone())))),
                    None => None,
                };
                let content = src.and_then(|(place, f)| self.model.files[&place].get(&f).cloned());
                let ok = self.command(&format!("COPY {}, {}", quote(&p), quote(&q)));
                match (content, dest) {
                    (Some(c), Some((place, f))) => {
                        assert!(ok, "{:?}", self.log);
                        self.model.files.get_mut(&place).unwrap().insert(f, c);
                    }
                    _ => assert!(!ok, "{:?}", self.log),
                }
            }
            10 => {
                let p = path(n, self);
                let to = match self.model.parse(&p) {
                    Some((d, None)) if self.model.drives.contains_key(&d) => Some(d),
                    _ => None,
                };
                assert_eq!(to.is_some(), self.command(&format!("CD {}", quote(&p))), "{:?}", self.log);
                if let Some(d) = to {
                    self.model.current = d;
                }
            }
            11 => self.mount(n),
            12 => {
                const NAMES: [&str; 8] = ["d", "D", "e", "Memory", "dé", "", "d:", "/"];
                let name = NAMES[n.below(NAMES.len())];
                let key = name.to_uppercase();
                let ok = key != self.model.current && self.model.drives.contains_key(&key);
                assert_eq!(ok, self.command(&format!("UNMOUNT {}", quote(&name))), "{:?}", self.log);
                if ok {
                    self.model.drives.remove(&key);
                }
            }
            _ => {
                // Contents that no program has.
                let p = path(n, self);
                let content: Vec<u8> = (0..n.below(5)).map(|_| [b'x', b'\n', b'\r', 0, 0xff, 0xc3, 0xa9][n.below(7)]).collect();
                self.log.push(format!("put {:?} {:?}", p, content));
                let r = block_on(self.storage.borrow_mut().put(&p, &content));
                let target = self.model.file(&p);
                assert_eq!(target.is_some(), r.is_ok(), "{:?}", self.log);
                if let Some((place, f)) = target {
                    self.model.files.get_mut(&place).unwrap().insert(f, content);
                }
            }
        }
    }

    fn mount(&mut self, n: &mut impl Nd) {
        const NAMES: [&str; 11] = ["d", "D", "e", "E", "dé", "memory", "", "a.b", "a:b", "a/b", "\\"];
        let name = NAMES[n.below(NAMES.len())];
        let dir = ["one", "two"][n.below(2)];
        let on_disk = format!("file://{}/{}", self.scratch.inner.display(), dir);
        let disk = self.scratch.user.is_some();
        let (uri, place) = match n.below(10) {
            0 => ("memory://x".to_owned(), None),
            1 => ("file://".to_owned(), None),
            2 => (["nope://x", "://", "memory", "", ":/"][n.below(5)].to_owned(), None),
            3 | 4 => ("memory://".to_owned(), Some(Place::Memory(self.memories))),
            5 => ("MEMORY://".to_owned(), Some(Place::Memory(self.memories))),
            _ if disk => (on_disk, Some(Place::Directory(dir.to_owned()))),
            _ => return,
        };
        let key = name.to_uppercase();
        let valid = !name.is_empty() && !name.contains([':', '\\', '/', '.']) && !self.model.drives.contains_key(&key);
        let ok = valid && place.is_some();
        assert_eq!(ok, self.command(&format!("MOUNT {} AS {}", quote(&uri), quote(name))), "{:?}", self.log);
        if ok {
            self.memories += 1;
            let place = place.unwrap();
            self.model.files.entry(place.clone()).or_default();
            self.model.drives.insert(key, place);
        }
    }

    /// Compares everything.
    fn check(&self, outside: &[(PathBuf, Vec<u8>)]) {
        assert!(self.session.console.borrow().keys.is_empty(), "{:?}: keys are left", self.log);
        let storage = self.storage.borrow();
        assert_eq!(self.model.drives.keys().map(String::as_str).collect::<Vec<_>>(), storage.mounted().into_keys().collect::<Vec<_>>(), "{:?}", self.log);
        assert_eq!(Some((self.model.current.clone(), None)), self.model.parse(&storage.cwd()), "{:?}", self.log);
        for (drive, place) in &self.model.drives {
            let want = &self.model.files[place];
            let listed = block_on(storage.enumerate(&format!("{}:", drive))).unwrap();
            let sizes: BTreeMap<&str, u64> = listed.dirents().iter().map(|(k, v)| (k.as_str(), v.length)).collect();
            assert_eq!(want.iter().map(|(k, v)| (k.as_str(), v.len() as u64)).collect::<BTreeMap<_, _>>(), sizes, "{:?}", self.log);
            for (name, content) in want {
                assert_eq!(content, &block_on(storage.get(&format!("{}:/{}", drive, name))).unwrap(), "{:?}: {}", self.log, name);
            }
        }
        for (place, want) in &self.model.files {
            if let Place::Directory(d) = place {
                assert_eq!(want, &files_of(&self.scratch.inner.join(d)), "{:?}", self.log);
            }
        }
        assert_eq!(outside, self.scratch.outside(), "{:?}", self.log);
        let program = self.program.borrow();
        assert_eq!(self.model.text, program.text(), "{:?}", self.log);
        assert_eq!(self.model.name.as_deref(), program.name(), "{:?}", self.log);
        assert_eq!(self.model.dirty, program.is_dirty(), "{:?}", self.log);
    }
}

/// Commands on files, one after the other.
fn commands(n: &mut impl Nd) {
    let mut w = World::new();
    let outside = w.scratch.outside();
    if w.scratch.user.is_some() && n.bool() {
        assert!(w.command(&format!("MOUNT \"file://{}/one\" AS \"d\"", w.scratch.inner.display())));
        w.model.files.insert(Place::Directory("one".to_owned()), Files::new());
        w.model.drives.insert("D".to_owned(), Place::Directory("one".to_owned()));
    }
    for _ in 0..1 + n.below(30) {
        w.step(n);
        w.check(&outside);
    }
}

/// RUN runs the stored program as it is, however it was entered.
fn stored(n: &mut impl Nd) {
    let mut w = World::new();
    let want: Vec<i32> = (0..1 + n.below(4)).map(|_| n.i32()).collect();
    let text: String = want.iter().map(|i| format!("PROBE {}\n", int(*i))).collect();
    if n.bool() {
        let mut keys: Vec<Key> = text.chars().map(|c| if c == '\n' { Key::NewLine } else { Key::Char(c) }).collect();
        keys.push(Key::Escape);
        w.session.console.borrow_mut().keys.extend(keys);
        assert!(w.command("EDIT"));
    } else {
        block_on(w.storage.borrow_mut().put("x.bas", text.as_bytes())).unwrap();
        assert!(w.command("LOAD \"x\""));
    }
    if n.bool() {
        assert!(w.command("SAVE \"y\""));
        assert!(w.command("NEW"));
        assert!(w.command("LOAD \"/y.bas\""));
    }
    let out = w.session.run("RUN");
    assert_eq!(None, out.error, "{}", text);
    assert_eq!(want.into_iter().map(ConstantDatum::Integer).collect::<Vec<_>>(), out.seen, "{}", text);
}

crate::suite! { "P17";
    bounded commands * 30000;
    bounded stored * 6000;
}
