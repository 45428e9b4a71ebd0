"""P17: paths name files, and operations on files change nothing else."""

import re

import p16
from verus_run import File

STORAGE = "std/src/storage/mod.rs"
MEMORY = "std/src/storage/mem.rs"
DIRECTORY = "std/src/storage/fs.rs"
PROGRAM = "std/src/program.rs"
COMMANDS = "std/src/storage/cmds.rs"

OPEN = """
verus! {
global size_of usize == 8;
pub enum ErrorKind { InvalidInput, NotFound, AlreadyExists, InvalidData, Other }
#[derive(Clone, Copy)]
pub struct LineCol { pub line: usize, pub col: usize }
/// Errors of operations: what they say is not looked at.
pub enum CallError { Io(ErrorKind), Syntax(LineCol, String), Eval(String), Precondition(String) }
pub type IoResult<T> = Result<T, CallError>;
pub type CallResult<T> = Result<T, CallError>;
#[verifier::external_body]
fn io_error(kind: ErrorKind, text: String) -> (r: CallError) ensures r is Io { unimplemented!() }
#[verifier::external_body]
fn opaque() -> String { unimplemented!() }
"""

TEXTS = """
/// Whether any character satisfies a predicate.
fn any_char<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| #[trigger] f.requires((c,))
    ensures
        r ==> exists|i: int| 0 <= i < s@.len() && f.ensures((#[trigger] s@[i],), true),
        !r ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((#[trigger] s@[i],), false),
{
    let n = count(s);
    let mut i = 0;
    while i < n
        invariant
            n == s@.len(), 0 <= i <= n, forall|c: char| #[trigger] f.requires((c,)),
            forall|k: int| 0 <= k < i ==> f.ensures((#[trigger] s@[k],), false),
        decreases n - i
    {
        if f(char_at(s, i)) { return true; }
        i += 1;
    }
    false
}
#[verifier::external_body]
fn char_at(s: &str, i: usize) -> (r: char)
    requires i < s@.len()
    ensures r == s@[i as int]
{ unimplemented!() }

/// How often a character is in a text.
pub open spec fn occurrences(s: Seq<char>, c: char) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { occurrences(s.skip(1), c) + if s[0] == c { 1int } else { 0 } }
}
proof fn none_of(s: Seq<char>, c: char)
    ensures occurrences(s, c) >= 0, (occurrences(s, c) == 0) == !s.contains(c)
    decreases s.len()
{
    if s.len() > 0 {
        none_of(s.skip(1), c);
        assert(s.contains(c) == (s[0] == c || s.skip(1).contains(c))) by {
            if s.skip(1).contains(c) {
                let i = choose|i: int| 0 <= i < s.len() - 1 && s.skip(1)[i] == c;
                assert(s[i + 1] == c);
            }
            if s.contains(c) && s[0] != c {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == c;
                assert(s.skip(1)[i - 1] == c);
            }
        }
    }
}
/// `chars().fold(0, |a, ch| if ch == c { a + 1 } else { a })`
#[verifier::external_body]
fn count_char(s: &str, c: char) -> (r: i32) ensures r == occurrences(s@, c) { unimplemented!() }
fn starts_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) {
    match first_char(s) { Some(d) => d == c, None => false }
}
fn contains_char(s: &str, c: char) -> (r: bool)
    ensures r == s@.contains(c)
{
    any_char(s, |d: char| -> (r: bool) ensures r == (d == c) { d == c })
}
/// `str::split(':')` when there are up to two pieces.
pub enum Pieces<'a> { One(&'a str), Two(&'a str, &'a str), More }
#[verifier::external_body]
fn split_colon<'a>(s: &'a str) -> (r: Pieces<'a>)
    ensures match r {
        Pieces::One(p) => says(s@, None, p@),
        Pieces::Two(a, b) => says(s@, Some(a@), b@),
        Pieces::More => occurrences(s@, ':') > 1,
    }
{ unimplemented!() }
/// The part of a text after its first `n` bytes.
fn after<'a>(s: &'a str, n: usize) -> (r: &'a str)
    requires exists|i: int| #[trigger] boundary(s@, n as int, i)
    ensures forall|i: int| #[trigger] boundary(s@, n as int, i) ==> r@ == s@.skip(i)
{ tail(s, n) }
proof fn one_byte(s: Seq<char>)
    requires s.len() > 0, (s[0] as u32) < 0x80
    ensures boundary(s, 1, 1)
{
    assert(s.take(1).drop_last() =~= Seq::empty());
    assert(s.take(1).last() == s[0]);
    assert(bytes(Seq::<char>::empty()) == 0);
}
#[verifier::external_body]
fn is_ascii_lowercase(c: char) -> (r: bool) ensures r == ('a' <= c <= 'z') { unimplemented!() }
pub uninterp spec fn ascii_upper(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn to_ascii_uppercase(s: &str) -> (r: String) ensures r@ == ascii_upper(s@) { unimplemented!() }
#[verifier::external_body]
fn concat3(a: &str, b: &str, c: &str) -> (r: String) ensures r@ == a@ + b@ + c@ { unimplemented!() }

// Names and paths.

/// Names of drives do not have these.
pub open spec fn drive_name(s: Seq<char>) -> bool {
    s.len() > 0 && !s.contains(':') && !s.contains('\\\\') && !s.contains('/') && !s.contains('.')
}
/// Name of a file directly in a drive: it cannot lead anywhere else.
pub open spec fn file_name(s: Seq<char>) -> bool {
    &&& s.len() > 0 && !s.contains(':') && !s.contains('\\\\') && !s.contains('/')
    &&& !(s =~= seq!['.']) && !(s =~= seq!['.', '.'])
}
pub open spec fn absolute(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '/' }
/// Path of a file or of the root of a drive.
pub open spec fn path_ok(s: Seq<char>) -> bool {
    s =~= seq!['/'] || file_name(s) || (absolute(s) && file_name(s.skip(1)))
}
/// The name of the file in a path.
pub open spec fn leaf(s: Seq<char>) -> Option<Seq<char>> {
    if s =~= seq!['/'] { None } else if absolute(s) { Some(s.skip(1)) } else { Some(s) }
}
/// What a text says before and after its only colon.
pub open spec fn says(s: Seq<char>, drive: Option<Seq<char>>, path: Seq<char>) -> bool {
    &&& !path.contains(':')
    &&& match drive {
        Some(d) => s =~= d + seq![':'] + path && !d.contains(':'),
        None => s =~= path,
    }
}
pub open spec fn or_root(p: Seq<char>) -> Seq<char> { if p.len() == 0 { seq!['/'] } else { p } }
/// Whether a text names a place, and which one: the name of a drive and a path in it.
pub open spec fn names(s: Seq<char>, drive: Option<Seq<char>>, path: Seq<char>) -> bool {
    exists|d: Option<Seq<char>>, p: Seq<char>| {
        &&& #[trigger] says(s, d, p)
        &&& (p.len() == 0 || path_ok(p)) && path =~= or_root(p)
        &&& d is Some ==> drive_name(d->Some_0)
        &&& drive == match d { Some(d) => Some(upper(d)), None => None }
    }
}
pub open spec fn valid(s: Seq<char>) -> bool { exists|d: Option<Seq<char>>, p: Seq<char>| #[trigger] names(s, d, p) }
/// Upper case letters of a name are kept, and are no separators.
#[verifier::external_body]
pub broadcast proof fn upper_names(s: Seq<char>)
    ensures
        #![trigger upper(s)]
        drive_name(s) ==> drive_name(upper(s)), upper(upper(s)) == upper(s),
{}
proof fn count_sum(a: Seq<char>, b: Seq<char>, c: char)
    ensures occurrences(a + b, c) == occurrences(a, c) + occurrences(b, c)
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
    } else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        count_sum(a.skip(1), b, c);
    }
}
proof fn count_one(c: char)
    ensures occurrences(seq![c], c) == 1
{
    assert(seq![c].skip(1) =~= Seq::empty());
    assert(occurrences(Seq::<char>::empty(), c) == 0);
}
/// A text says one thing.
proof fn says_one(s: Seq<char>, d: Option<Seq<char>>, p: Seq<char>, e: Option<Seq<char>>, q: Seq<char>)
    requires says(s, d, p), says(s, e, q)
    ensures d == e, p == q
{
    none_of(s, ':');
    if d is Some && e is Some {
        let (d, e) = (d->Some_0, e->Some_0);
        if d.len() < e.len() { assert(s[d.len() as int] == ':'); assert(e[d.len() as int] == ':'); }
        if e.len() < d.len() { assert(s[e.len() as int] == ':'); assert(d[e.len() as int] == ':'); }
        assert(d =~= s.take(d.len() as int));
        assert(e =~= s.take(d.len() as int));
        assert(p =~= s.skip(d.len() as int + 1));
        assert(q =~= s.skip(d.len() as int + 1));
    } else if d is Some {
        assert(s[d->Some_0.len() as int] == ':');
    } else if e is Some {
        assert(s[e->Some_0.len() as int] == ':');
    }
}
/// A text with more colons says nothing.
proof fn says_few(s: Seq<char>, d: Option<Seq<char>>, p: Seq<char>)
    requires says(s, d, p)
    ensures occurrences(s, ':') <= 1
{
    none_of(p, ':');
    if d is Some {
        none_of(d->Some_0, ':');
        count_one(':');
        count_sum(d->Some_0 + seq![':'], p, ':');
        count_sum(d->Some_0, seq![':'], ':');
    }
}
/// Each text names one place.
pub broadcast proof fn one_place(s: Seq<char>, d: Option<Seq<char>>, p: Seq<char>, e: Option<Seq<char>>, q: Seq<char>)
    requires #[trigger] names(s, d, p), #[trigger] names(s, e, q)
    ensures d == e, p == q
{
    let (d1, p1) = choose|d1: Option<Seq<char>>, p1: Seq<char>| #[trigger] says(s, d1, p1) && (p1.len() == 0 || path_ok(p1)) && p =~= or_root(p1)
        && (d1 is Some ==> drive_name(d1->Some_0)) && d == (match d1 { Some(d) => Some(upper(d)), None => None });
    let (d2, p2) = choose|d1: Option<Seq<char>>, p1: Seq<char>| #[trigger] says(s, d1, p1) && (p1.len() == 0 || path_ok(p1)) && q =~= or_root(p1)
        && (d1 is Some ==> drive_name(d1->Some_0)) && e == (match d1 { Some(d) => Some(upper(d)), None => None });
    says_one(s, d1, p1, d2, p2);
}
/// What a text that says something names.
pub broadcast proof fn said(s: Seq<char>, d: Option<Seq<char>>, p: Seq<char>)
    requires #[trigger] says(s, d, p)
    ensures
        valid(s) == ((p.len() == 0 || path_ok(p)) && (d is Some ==> drive_name(d->Some_0))),
        forall|q: Seq<char>, e: Option<Seq<char>>| valid(s) && q =~= or_root(p) && e == (match d { Some(d) => Some(upper(d)), None => None }) ==> #[trigger] names(s, e, q),
{
    let ok = (p.len() == 0 || path_ok(p)) && (d is Some ==> drive_name(d->Some_0));
    if ok {
        assert(names(s, match d { Some(d) => Some(upper(d)), None => None }, or_root(p)));
    }
    if valid(s) {
        let (e, q) = choose|e: Option<Seq<char>>, q: Seq<char>| #[trigger] names(s, e, q);
        let (d1, p1) = choose|d1: Option<Seq<char>>, p1: Seq<char>| #[trigger] says(s, d1, p1) && (p1.len() == 0 || path_ok(p1)) && q =~= or_root(p1)
            && (d1 is Some ==> drive_name(d1->Some_0)) && e == (match d1 { Some(d) => Some(upper(d)), None => None });
        says_one(s, d, p, d1, p1);
    }
}
/// What is named is well formed.
pub broadcast proof fn well_named(s: Seq<char>, d: Option<Seq<char>>, p: Seq<char>)
    requires #[trigger] names(s, d, p)
    ensures d is Some ==> drive_name(d->Some_0) && upper(d->Some_0) == d->Some_0, path_ok(p)
{
    broadcast use upper_names;
}
/// What follows the first slash.
proof fn slashes(s: Seq<char>)
    ensures
        occurrences(s, '/') >= 0, (occurrences(s, '/') == 0) == !s.contains('/'),
        s.len() > 0 && s[0] == '/' ==> occurrences(s, '/') == 1 + occurrences(s.skip(1), '/'),
        s.len() > 0 ==> (occurrences(s.skip(1), '/') == 0) == !s.skip(1).contains('/') && occurrences(s.skip(1), '/') >= 0,
{
    none_of(s, '/');
    if s.len() > 0 { none_of(s.skip(1), '/'); }
}
proof fn rest_lacks(s: Seq<char>, c: char)
    requires s.len() > 0, !s.contains(c)
    ensures !s.skip(1).contains(c)
{
    if s.skip(1).contains(c) {
        let i = choose|i: int| 0 <= i < s.len() - 1 && s.skip(1)[i] == c;
        assert(s[i + 1] == c);
    }
}
/// Which paths the conditions admit.
proof fn paths(s: Seq<char>)
    ensures
        path_ok(s) == ({
            &&& s.len() > 0 && !s.contains(':') && !s.contains('\\\\')
            &&& !(s =~= seq!['.']) && !(s =~= seq!['.', '.']) && !(s =~= seq!['/', '.']) && !(s =~= seq!['/', '.', '.'])
            &&& occurrences(s, '/') == 0 || (occurrences(s, '/') == 1 && s[0] == '/')
        }),
{
    slashes(s);
    let d = seq!['.'];
    let dd = seq!['.', '.'];
    if s.len() > 0 && s[0] == '/' {
        assert(s.contains('/'));
        let t = s.skip(1);
        assert(s =~= seq!['/'] + t);
        assert((t =~= d) == (s =~= seq!['/', '.'])) by {
            if t =~= d { assert(s =~= seq!['/', '.']); }
            if s =~= seq!['/', '.'] { assert(t =~= d); }
        }
        assert((t =~= dd) == (s =~= seq!['/', '.', '.'])) by {
            if t =~= dd { assert(s =~= seq!['/', '.', '.']); }
            if s =~= seq!['/', '.', '.'] { assert(t =~= dd); }
        }
        assert((t.len() == 0) == (s =~= seq!['/']));
        assert forall|c: char| c != '/' implies s.contains(c) == #[trigger] t.contains(c) by {
            if !s.contains(c) { rest_lacks(s, c); }
            if s.contains(c) {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == c;
                assert(t[i - 1] == c);
            }
        }
        assert(s.contains(':') == t.contains(':'));
        assert(s.contains('\\\\') == t.contains('\\\\'));
    }
}
"""

# What `Drive` promises about its files.
CHANGED = "forall|n: Seq<char>| n != name@ ==> #[trigger] final(self).held(n) == old(self).held(n),"
SAME = "forall|n: Seq<char>| #[trigger] final(self).held(n) == old(self).held(n),"
DRIVE = {
    "delete": """
    requires file_name(name@)
    ensures
        r is Ok ==> old(self).held(name@) is Some && final(self).held(name@) is None,
        %s
        r is Err ==> final(self).held(name@) == old(self).held(name@),
""" % CHANGED,
    "get": """
    requires file_name(name@)
    ensures
        r is Ok ==> self.held(name@) == Some(r->Ok_0@),
""",
    "put": """
    requires file_name(name@)
    ensures
        r is Ok ==> final(self).held(name@) == Some(content@),
        %s
""" % CHANGED,
}

DRIVES = """
pub struct FileAcls { x: u8 }
pub struct PathBuf { x: u8 }
/// Any drive: a set of files, which are sequences of bytes.
pub struct Drive { pub files: Ghost<Map<Seq<char>, Seq<u8>>> }
impl Drive {
    pub open spec fn held(&self, n: Seq<char>) -> Option<Seq<u8>> { if self.files@.contains_key(n) { Some(self.files@[n]) } else { None } }
    #[verifier::external_body]
    fn delete(&mut self, name: &str) -> (r: IoResult<()>)
    %(delete)s
    { unimplemented!() }
    #[verifier::external_body]
    fn enumerate(&self) -> (r: IoResult<DriveFiles>)
        ensures r is Ok ==> lists(r->Ok_0, |n: Seq<char>| self.held(n))
    { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, name: &str) -> (r: IoResult<Vec<u8>>)
    %(get)s
    { unimplemented!() }
    #[verifier::external_body]
    fn put(&mut self, name: &str, content: &[u8]) -> (r: IoResult<()>)
    %(put)s
    { unimplemented!() }
    #[verifier::external_body]
    fn get_acls(&self, name: &str) -> (r: IoResult<FileAcls>)
        requires file_name(name@)
    { unimplemented!() }
    #[verifier::external_body]
    fn update_acls(&mut self, name: &str, add: &FileAcls, remove: &FileAcls) -> (r: IoResult<()>)
        requires file_name(name@)
        ensures %(same)s
    { unimplemented!() }
    #[verifier::external_body]
    fn system_path(&self, name: &str) -> (r: Option<PathBuf>)
        requires name@.len() == 0 || file_name(name@)
    { unimplemented!() }
}

/// The table of drives.
pub struct Drives { pub map: Ghost<Map<Seq<char>, MountedDrive>> }
impl Drives {
    pub open spec fn view(&self) -> Map<Seq<char>, MountedDrive> { self.map@ }
    #[verifier::external_body]
    fn contains_key(&self, k: &DriveKey) -> (r: bool) ensures r == self@.contains_key(k.0@) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &DriveKey) -> (r: Option<&MountedDrive>)
        ensures match r {
            Some(m) => self@.contains_key(k.0@) && *m == self@[k.0@],
            None => !self@.contains_key(k.0@),
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn get_mut(&mut self, k: &DriveKey) -> (r: Option<&mut MountedDrive>)
        ensures match r {
            Some(m) => old(self)@.contains_key(k.0@) && *m == old(self)@[k.0@] && final(self)@ == old(self)@.insert(k.0@, *final(m)),
            None => !old(self)@.contains_key(k.0@) && *final(self) == *old(self),
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: DriveKey, m: MountedDrive) -> (r: Option<MountedDrive>)
        ensures final(self)@ == old(self)@.insert(k.0@, m)
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &DriveKey) -> (r: Option<MountedDrive>)
        ensures final(self)@ == old(self)@.remove(k.0@), (r is Some) == old(self)@.contains_key(k.0@)
    { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize)
        ensures forall|a: Seq<char>, b: Seq<char>| #[trigger] self@.contains_key(a) && #[trigger] self@.contains_key(b) && a != b ==> r > 1
    { unimplemented!() }
}
impl DriveKey {
    fn clone(&self) -> (r: DriveKey) ensures r.0@ == self.0@ { DriveKey(owned(&self.0)) }
}
fn same_key(a: &DriveKey, b: &DriveKey) -> (r: bool) ensures r == (a.0@ == b.0@) { same_chars(&a.0, &b.0) }
#[verifier::external_body]
fn same_chars(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

/// What creates drives for a scheme: new drives are not any of the mounted ones.
pub struct Factories { x: u8 }
pub struct Factory { x: u8 }
impl Factories {
    #[verifier::external_body]
    fn get(&self, scheme: &str) -> (r: Option<&Factory>) { unimplemented!() }
}
impl Factory {
    #[verifier::external_body]
    fn create(&self, target: &str) -> (r: IoResult<Drive>) { unimplemented!() }
}
""" % dict(DRIVE, same=SAME)

PLACES = """
impl Location {
    pub open spec fn drive(&self) -> Option<Seq<char>> { match self.drive { Some(k) => Some(k.0@), None => None } }
    pub open spec fn wf(&self) -> bool { path_ok(self.path@) }
}
impl Storage {
    /// The current drive is there.
    pub open spec fn wf(&self) -> bool { self.drives@.contains_key(self.current.0@) && drive_name(self.current.0@) && upper(self.current.0@) == self.current.0@ }
    /// Which drive a path is in.
    pub open spec fn drive_of(&self, d: Option<Seq<char>>) -> Seq<char> { match d { Some(d) => d, None => self.current.0@ } }
    /// The file a text names, if it is valid and its drive is mounted.
    pub open spec fn file(&self, s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
        if exists|d: Option<Seq<char>>, p: Seq<char>| #[trigger] names(s, d, p) && leaf(p) is Some && self.drives@.contains_key(self.drive_of(d)) {
            let (d, p) = choose|d: Option<Seq<char>>, p: Seq<char>| #[trigger] names(s, d, p);
            Some((self.drive_of(d), leaf(p)->Some_0))
        } else {
            None
        }
    }
    /// The drive whose root a text names.
    pub open spec fn root(&self, s: Seq<char>) -> Option<Seq<char>> {
        if exists|d: Option<Seq<char>>, p: Seq<char>| #[trigger] names(s, d, p) && leaf(p) is None && self.drives@.contains_key(self.drive_of(d)) {
            let (d, p) = choose|d: Option<Seq<char>>, p: Seq<char>| #[trigger] names(s, d, p);
            Some(self.drive_of(d))
        } else {
            None
        }
    }
    /// The content of a file.
    pub open spec fn content(&self, f: (Seq<char>, Seq<char>)) -> Option<Seq<u8>> {
        if self.drives@.contains_key(f.0) { self.drives@[f.0].drive.held(f.1) } else { None }
    }
    /// Nothing differs except, perhaps, one file.
    pub open spec fn same_except(&self, old: Storage, f: Option<(Seq<char>, Seq<char>)>) -> bool {
        &&& self.current.0@ == old.current.0@
        &&& forall|d: Seq<char>| #[trigger] self.drives@.contains_key(d) == old.drives@.contains_key(d)
        &&& forall|d: Seq<char>| #[trigger] old.drives@.contains_key(d) ==> self.drives@[d].uri@ == old.drives@[d].uri@
        &&& forall|g: (Seq<char>, Seq<char>)| Some(g) != f ==> #[trigger] self.content(g) == old.content(g)
    }
}
/// A path that is joined to a drive names the same file.
proof fn joined(s: Seq<char>, d: Seq<char>, p: Seq<char>)
    requires drive_name(d), path_ok(p), s =~= d + seq![':'] + p
    ensures names(s, Some(upper(d)), p)
{
    paths(p);
    assert(says(s, Some(d), p));
}
"""


def rewritten(body):
    """Spells out what the standard library does."""
    for a, b in (
            (r"debug_assert_eq!\((?:[^()]|\([^()]*\))*\);\n", ""),
            (r"debug_assert!\((?:[^()]|\([^()]*\))*\);\n", ""),
            (r"format!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)", "opaque()"),
            (r'io::Error::new\(\s*io::ErrorKind::(\w+),\s*"[^"]*",?\s*\)', r"io_error(ErrorKind::\1, opaque())"),
            (r"io::Error::new\(", "io_error("),
            (r"io::ErrorKind::", "ErrorKind::"),
            (r"let fields = s\.split\(':'\)\.collect::<Vec<&str>>\(\);\n", ""),
            (r"match fields\.as_slice\(\) \{", "match split_colon(s) {"),
            (r"\[drive, path\] =>", "Pieces::Two(drive, path) =>"),
            (r"\[path\] =>", "Pieces::One(path) =>"),
            (r"\*(drive|path)\b(?=[),])", r"\1"),
            (r"!s\.chars\(\)\.any\(\|(\w+)\| (.*)\)\n", r"!any_char(s, |\1: char| -> (r: bool) ensures r == (\2) { \2 })\n"),
            (r"path\.chars\(\)\.fold\(0, \|a, c\| if c == ('.') \{ a \+ 1 \} else \{ a \}\)", r"count_char(path, \1)"),
            (r"\b(path|s)\.is_empty\(\)", r"(count(\1) == 0)"),
            (r"\bname\.is_empty\(\)", "(count(name) == 0)"),
            (r"\bself\.path\.starts_with\(", "starts_with(&self.path, "),
            (r"\bpath\.starts_with\(", "starts_with(path, "),
            (r"\b(self\.path|path) == (\"[^\"]*\")", r"same_chars(&\1, \2)"),
            (r"&self\.path\[1\.\.\]", "after(&self.path, 1)"),
            (r"name\.rfind\(('.')\)\.is_some\(\)", r"contains_char(name, \1)"),
            (r"for ch in name\.chars\(\) \{", "let letters = count(name);\nlet mut at = 0;\nwhile at < letters {\nlet ch = char_at(name, at);\nat += 1;"),
            (r"ch\.is_ascii_lowercase\(\)", "is_ascii_lowercase(ch)"),
            (r"&extension\.to_ascii_uppercase\(\)", "&to_ascii_uppercase(extension)"),
            (r"self\.path\.clear\(\)", "clear(&mut self.path)"),
            (r"self\.path\.push\(", "push(&mut self.path, "),
            (r"self\.path\.push_str\(", "push_str(&mut self.path, "),
            (r"\bpath\.to_owned\(\)", "owned(path)"),
            (r"\buri\.to_owned\(\)", "owned(uri)"),
            (r'"([^"]*)"\.to_owned\(\)', r'owned("\1")'),
            (r"\bdrive\.into\(\)", "owned(drive)"),
            (r"\bdrive\.to_uppercase\(\)", "to_uppercase(&drive)"),
            (r"&scheme\.to_lowercase\(\)", "&to_lowercase(scheme)"),
            (r'uri\.find\("://"\)', 'find(uri, "://")'),
            (r"&uri\[0\.\.pos\]", "slice(uri, 0, pos)"),
            (r"&uri\[pos \+ 3\.\.\]", "after(uri, pos + 3)"),
            (r"self\.current == key", "same_key(&self.current, &key)"),
            (r"\.drive(\s*)\.as_ref\(\)", r".drive\1.borrowed()"),
            (r"\.drive(\s*)\.as_mut\(\)", r".drive\1.borrowed_mut()"),
            (r"\.await\b", ""),
            (r"assert!\(\s*(.*?),\s*\"[^\"]*\"\s*\);", r"assert_holds(\1);"),
            (r"\.expect\(\"[^\"]*\"\)", ".unwrap()"),
            (r'write!\(f, "\{\}:\{\}", drive\.0, self\.path\)', 'concat3(&drive.0, ":", &self.path)'),
            (r"self\.path\.fmt\(f\)", "owned(&self.path)"),
    ):
        body = re.sub(a, b, body, flags=re.S if "assert!" in a else 0)
    return body


LIBRARY = (rewritten, "calls to methods of str, String and io::Error, formatting and slices of texts become calls to functions with assumed contracts; texts of errors are opaque; await is dropped")
PLAIN = [(r"io::Result<", "IoResult<", "errors of input and output have no source"), (r"Box<dyn Drive>", "Drive", "drives are any drive that keeps the contract"),
         (r"\bdyn Drive\b", "Drive", "drives are any drive that keeps the contract")]

STRING_OPS = """
#[verifier::external_body]
fn clear(s: &mut String) ensures final(s)@.len() == 0 { unimplemented!() }
#[verifier::external_body]
fn push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body]
fn push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
fn assert_holds(b: bool) requires b {}
impl Drive {
    fn borrowed(&self) -> (r: &Drive) ensures r == self { self }
    fn borrowed_mut(&mut self) -> (r: &mut Drive) ensures *r == *old(self), *final(self) == *final(r) { self }
}
"""

LITERALS = """proof { reveal_strlit("/"); reveal_strlit("."); reveal_strlit(".."); reveal_strlit("/."); reveal_strlit("/.."); reveal_strlit(":"); reveal_strlit("");
    assert("/"@ =~= seq!['/']); assert("."@ =~= seq!['.']); assert(".."@ =~= seq!['.', '.']); assert("/."@ =~= seq!['/', '.']); assert("/.."@ =~= seq!['/', '.', '.']);
}"""


def public(item):
    """Makes a type and its fields visible to specifications."""
    item = re.sub(r"(?m)^ *(?:pub )?struct", "pub struct", item)
    item = re.sub(r"struct (\w+)\((\w)", r"struct \1(pub \2", item)
    return re.sub(r"(?m)^( +)(\w+: )", r"\1pub \2", item)


def storage(u, last=True):
    f = File(STORAGE)
    u.add(OPEN)
    u.add(p16.TEXTS)
    u.add(TEXTS)
    u.add(public(f.item("struct", "DriveKey")))
    u.add(public(f.item("struct", "Location")))
    u.add(public(re.sub(r"Box<dyn Drive>", "Drive", f.item("struct", "MountedDrive"))))
    u.add(public(re.sub(r"HashMap<String, Box<dyn DriveFactory>>", "Factories", re.sub(r"HashMap<DriveKey, MountedDrive>", "Drives", f.item("struct", "Storage")))))
    u.add(FILES)
    u.add(DRIVES)
    u.add(STRING_OPS)
    u.add(PLACES)
    u.add("impl DriveKey {")
    u.fn(f, "new", within="impl DriveKey", contract="""
    ensures
        (r is Ok) == drive_name(drive@), r is Ok ==> r->Ok_0.0@ == upper(drive@),
""", subst=PLAIN + [(r"<T: Into<String>>\(drive: T\)", "(drive: &str)", "the name is given as a text")], rewrite=LIBRARY)
    u.fn(f, "is_valid", within="impl DriveKey", contract="ensures r == drive_name(s@)", rewrite=LIBRARY)
    u.add("}\nimpl Location {")
    u.fn(f, "new", within="impl Location", contract="""
    ensures
        (r is Ok) == valid(s@),
        r is Ok ==> r->Ok_0.wf() && names(s@, r->Ok_0.drive(), r->Ok_0.path@),
""", subst=PLAIN, rewrite=LIBRARY, start="broadcast use said;\n" + LITERALS + """
proof {
    assert forall|d: Option<Seq<char>>, p: Seq<char>| #[trigger] says(s@, d, p) implies occurrences(s@, ':') <= 1 by { says_few(s@, d, p); }
    assert forall|p: Seq<char>| #![trigger path_ok(p)] true implies path_ok(p) == ({
            &&& p.len() > 0 && !p.contains(':') && !p.contains('\\\\')
            &&& !(p =~= seq!['.']) && !(p =~= seq!['.', '.']) && !(p =~= seq!['/', '.']) && !(p =~= seq!['/', '.', '.'])
            &&& occurrences(p, '/') == 0 || (occurrences(p, '/') == 1 && p[0] == '/')
        }) && occurrences(p, '/') >= 0 by { paths(p); slashes(p); }
}
""")
    u.fn(f, "with_drive_root", within="impl Location", contract="ensures r.wf(), r.drive() == Some(drive.0@), leaf(r.path@) is None", rewrite=LIBRARY, start=LITERALS)
    u.fn(f, "is_path_valid", within="impl Location", contract="ensures r == (s@.len() > 0 && !s@.contains(':') && !s@.contains('\\\\'))", rewrite=LIBRARY)
    u.fn(f, "leaf_name", within="impl Location", contract="""
    requires self.wf()
    ensures
        match r { Some(n) => leaf(self.path@) == Some(n@) && file_name(n@), None => leaf(self.path@) is None },
""", rewrite=LIBRARY, start=LITERALS + "proof { paths(self.path@); if absolute(self.path@) { one_byte(self.path@); assert(self.path@.contains('/')); } }")
    u.fn(f, "set_leaf_name", within="impl Location", contract="""
    requires old(self).wf(), file_name(name@)
    ensures final(self).wf(), final(self).drive == old(self).drive, leaf(final(self).path@) == Some(name@),
""", rewrite=LIBRARY, start="", end="""proof {
    if final(self).path@.len() > name@.len() {
        assert(final(self).path@ =~= seq!['/'] + name@);
        assert(final(self).path@.skip(1) =~= name@);
    } else {
        assert(final(self).path@ =~= name@);
        assert(!absolute(name@)) by { if absolute(name@) { assert(name@.contains('/')); } }
    }
}""".replace("final(self)", "self"))
    u.fn(f, "set_extension", within="impl Location", contract="""
    requires old(self).wf(), plain(extension@), plain(ascii_upper(extension@)),
    ensures
        final(self).wf(), final(self).drive == old(self).drive, (leaf(final(self).path@) is None) == (leaf(old(self).path@) is None),
        leaf(old(self).path@) is Some ==> leaf(final(self).path@)->Some_0 =~= extended(leaf(old(self).path@)->Some_0, extension@),
""", rewrite=LIBRARY, start="proof { keeps(self.path@, extension@); keeps(self.path@, ascii_upper(extension@)); }\nbroadcast use sums;", loops=["""
    invariant_except_break
        as_uppercase, letters == name@.len(), 0 <= at <= letters,
        forall|i: int| 0 <= i < at ==> !('a' <= #[trigger] name@[i] <= 'z'),
    ensures
        as_uppercase == !(exists|i: int| 0 <= i < name@.len() && 'a' <= #[trigger] name@[i] <= 'z'),
    decreases letters - at,
"""])
    u.fn(f, "fmt", within="impl fmt::Display for Location", rename="to_string", contract="""
    ensures
        r@ =~= match self.drive { Some(k) => k.0@ + seq![':'] + self.path@, None => self.path@ },
""", subst=[(r", f: &mut fmt::Formatter<'_>\) -> fmt::Result", ") -> String", "it returns the text instead of writing it")], rewrite=LIBRARY, start=LITERALS)
    u.add("}")
    u.add(EXTENSIONS)
    u.fn(f, "split_uri", contract="""
    ensures
        r is Ok ==> r->Ok_0.0@.len() > 0 && uri@ =~= r->Ok_0.0@ + sep() + r->Ok_0.1@ && !contains_at_all(r->Ok_0.0@, sep()),
        r is Err ==> !contains_at_all(uri@, sep()) || has_at(uri@, sep(), 0),
""", subst=PLAIN, rewrite=LIBRARY, start="""broadcast use {same, beyond, nothing, whole};
proof { reveal_strlit("://"); assert("://"@ =~= sep()); uri_parts(uri@); }
let all = size(uri);""")
    u.add("impl Storage {")
    st = dict(within="impl Storage", rewrite=LIBRARY)
    asyn = PLAIN + [(r"\basync fn", "fn", "operations of drives do not wait")]
    find = "broadcast use {one_place, well_named};\n"
    u.fn(f, "get_drive", contract="""
    requires self.wf()
    ensures match r {
        Ok(d) => self.drives@.contains_key(self.drive_of(location.drive())) && *d == self.drives@[self.drive_of(location.drive())].drive,
        Err(_) => !self.drives@.contains_key(self.drive_of(location.drive())),
    }
""", subst=PLAIN, **st)
    u.fn(f, "get_drive_mut", contract="""
    requires old(self).wf()
    ensures match r {
        Ok(d) => ({
            let k = old(self).drive_of(location.drive());
            &&& old(self).drives@.contains_key(k) && *d == old(self).drives@[k].drive
            &&& final(self).current == old(self).current && final(self).factories == old(self).factories
            &&& final(self).drives@ =~= old(self).drives@.insert(k, MountedDrive { uri: old(self).drives@[k].uri, drive: *final(d) })
        }),
        Err(_) => !old(self).drives@.contains_key(old(self).drive_of(location.drive())) && *final(self) == *old(self),
    }
""", subst=PLAIN, **st)
    changes = "final(self).wf(), final(self).same_except(*old(self), old(self).file(raw_location@)),\n        r is Ok ==> old(self).file(raw_location@) is Some,\n"
    u.fn(f, "make_canonical", contract="""
    requires self.wf()
    ensures
        (r is Ok) == valid(raw_location@),
        r is Ok ==> self.file(r->Ok_0@) == self.file(raw_location@) && self.root(r->Ok_0@) == self.root(raw_location@),
""", subst=PLAIN, start=find + "broadcast use {upper_names, canonical};", **st)
    u.fn(f, "make_canonical_with_extension", contract="""
    requires self.wf(), plain(extension@), plain(ascii_upper(extension@)),
    ensures
        r is Ok ==> self.root(raw_location@) is None,
        r is Ok ==> self.file(r->Ok_0@) == match self.file(raw_location@) { Some(f) => Some((f.0, extended(f.1, extension@))), None => None },
        r is Err ==> self.file(raw_location@) is None,
""", subst=PLAIN, start=find + "broadcast use {upper_names, canonical};", **st)
    u.fn(f, "attach", contract="""
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).current == old(self).current,
        (r is Ok) == (drive_name(name@) && !old(self).drives@.contains_key(upper(name@))),
        r is Ok ==> exists|m: MountedDrive| m.drive == drive && m.uri@ == uri@ && final(self).drives@ == #[trigger] old(self).drives@.insert(upper(name@), m),
        r is Err ==> *final(self) == *old(self),
""", subst=PLAIN, **st)
    u.fn(f, "mount", contract="""
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).current == old(self).current,
        r is Ok ==> drive_name(name@) && !old(self).drives@.contains_key(upper(name@))
            && exists|m: MountedDrive| m.uri@ == uri@ && final(self).drives@ == #[trigger] old(self).drives@.insert(upper(name@), m),
        r is Err ==> *final(self) == *old(self),
""", subst=PLAIN, **st)
    u.fn(f, "unmount", contract="""
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).current == old(self).current,
        (r is Ok) == (drive_name(name@) && old(self).drives@.contains_key(upper(name@)) && old(self).current.0@ != upper(name@)),
        r is Ok ==> final(self).drives@ == old(self).drives@.remove(upper(name@)),
        r is Err ==> *final(self) == *old(self),
""", subst=PLAIN, **st)
    u.fn(f, "cd", contract="""
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).drives == old(self).drives,
        (r is Ok) == (old(self).root(location@) is Some),
        r is Ok ==> final(self).current.0@ == old(self).root(location@)->Some_0,
        r is Err ==> *final(self) == *old(self),
""", subst=PLAIN, start=find, **st)
    u.fn(f, "cwd", contract="""
    requires self.wf()
    ensures self.root(r@) == Some(self.current.0@)
""", subst=PLAIN, start=find + "broadcast use {upper_names, canonical};", **st)
    use = find + "broadcast use content_of;\n"
    u.fn(f, "delete", contract="""
    requires old(self).wf()
    ensures
        """ + changes + """
        r is Ok ==> old(self).content(old(self).file(raw_location@)->Some_0) is Some && final(self).content(old(self).file(raw_location@)->Some_0) is None,
        r is Err ==> final(self).same_except(*old(self), None),
""", subst=asyn, start=use, **st)
    u.fn(f, "enumerate", contract="""
    requires self.wf()
    ensures
        r is Ok ==> self.root(raw_location@) is Some && lists(r->Ok_0, |n: Seq<char>| self.content((self.root(raw_location@)->Some_0, n))),
""", subst=asyn, start=find, **st)
    u.fn(f, "get_location", contract="""
    requires self.wf(), location.wf()
    ensures
        r is Ok ==> leaf(location.path@) is Some && self.content((self.drive_of(location.drive()), leaf(location.path@)->Some_0)) == Some(r->Ok_0@),
""", subst=asyn, **st)
    u.fn(f, "get", contract="""
    requires self.wf()
    ensures
        r is Ok ==> self.file(raw_location@) is Some && self.content(self.file(raw_location@)->Some_0) == Some(r->Ok_0@),
""", subst=asyn, start=find, **st)
    u.fn(f, "get_acls", contract="""
    requires self.wf()
    ensures
        r is Ok ==> self.file(raw_location@) is Some,
""", subst=asyn, start=find, **st)
    u.fn(f, "put_location", contract="""
    requires old(self).wf(), location.wf()
    ensures
        ({
            let d = old(self).drive_of(location.drive());
            let f = if leaf(location.path@) is Some && old(self).drives@.contains_key(d) { Some((d, leaf(location.path@)->Some_0)) } else { None };
            &&& final(self).wf() && final(self).same_except(*old(self), f)
            &&& r is Ok ==> f is Some && final(self).content(f->Some_0) == Some(content@)
        })
""", subst=asyn, start=use, **st)
    u.fn(f, "put", contract="""
    requires old(self).wf()
    ensures
        """ + changes + """
        r is Ok ==> final(self).content(old(self).file(raw_location@)->Some_0) == Some(content@),
""", subst=asyn, start=find, **st)
    u.fn(f, "update_acls", contract="""
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).same_except(*old(self), None), r is Ok ==> old(self).file(raw_location@) is Some,
""", subst=asyn, start=use, **st)
    u.fn(f, "system_path", contract="""
    requires self.wf()
    ensures
        r is Ok ==> self.file(raw_location@) is Some || self.root(raw_location@) is Some,
""", subst=asyn, start=find + LITERALS, **st)
    u.fn(f, "copy", contract="""
    requires old(self).wf()
    ensures
        final(self).wf(),
        ({
            let src = old(self).file(raw_src@);
            let dest = if old(self).root(raw_dest@) is Some && src is Some { Some((old(self).root(raw_dest@)->Some_0, src->Some_0.1)) } else { old(self).file(raw_dest@) };
            &&& final(self).same_except(*old(self), dest)
            &&& r is Ok ==> src is Some && dest is Some && old(self).content(src->Some_0) is Some && final(self).content(dest->Some_0) == old(self).content(src->Some_0)
        }),
""", subst=asyn, start=find, **st)
    u.add("}\n" + ("}\nfn main() {}" if last else ""))


EXTENSIONS = """
/// Extensions that are no part of paths.
pub open spec fn plain(s: Seq<char>) -> bool { s.len() > 0 && !s.contains(':') && !s.contains('\\\\') && !s.contains('/') }
/// A name with an extension, if it has none.
pub open spec fn extended(n: Seq<char>, ext: Seq<char>) -> Seq<char> {
    if n.contains('.') {
        n
    } else {
        n + seq!['.'] + if exists|i: int| 0 <= i < n.len() && 'a' <= #[trigger] n[i] <= 'z' { ext } else { ascii_upper(ext) }
    }
}
proof fn sum_lacks(a: Seq<char>, b: Seq<char>, c: char)
    ensures (a + b).contains(c) == (a.contains(c) || b.contains(c))
{
    if a.contains(c) { let i = choose|i: int| 0 <= i < a.len() && a[i] == c; assert((a + b)[i] == c); }
    if b.contains(c) { let i = choose|i: int| 0 <= i < b.len() && b[i] == c; assert((a + b)[a.len() + i] == c); }
}
/// Extensions keep paths valid.
proof fn keeps(p: Seq<char>, ext: Seq<char>)
    requires path_ok(p), plain(ext)
    ensures
        leaf(p) is Some ==> path_ok(p + seq!['.'] + ext) && leaf(p + seq!['.'] + ext) == Some(leaf(p)->Some_0 + seq!['.'] + ext),
{
    if leaf(p) is Some {
        let n = leaf(p)->Some_0;
        let m = n + seq!['.'] + ext;
        let q = p + seq!['.'] + ext;
        assert forall|c: char| c != '.' && !n.contains(c) && !ext.contains(c) implies !#[trigger] m.contains(c) by {
            sum_lacks(n, seq!['.'], c);
            sum_lacks(n + seq!['.'], ext, c);
            assert(seq!['.'].contains(c) ==> c == '.');
        }
        assert(m.len() >= 3);
        assert(file_name(n));
        assert(!m.contains(':'));
        assert(!m.contains('\\\\'));
        assert(!m.contains('/'));
        assert(file_name(m));
        if absolute(p) {
            assert(q.skip(1) =~= m);
        } else {
            assert(q =~= m);
            assert(q[0] == n[0]);
            if q[0] == '/' { assert(n.contains('/')); }
        }
    }
}
pub broadcast proof fn sums(a: Seq<char>, c: char, b: Seq<char>)
    ensures #[trigger] (a.push(c) + b) =~= a + seq![c] + b
{}
pub open spec fn contains_at_all(s: Seq<char>, x: Seq<char>) -> bool { exists|i: int| #[trigger] has_at(s, x, i) }
pub open spec fn sep() -> Seq<char> { seq![':', '/', '/'] }
proof fn uri_parts(s: Seq<char>)
    ensures
        forall|i: int, b: int| #![trigger has_at(s, sep(), i), boundary(s, b, i)] has_at(s, sep(), i) && boundary(s, b, i) ==> boundary(s, b + 3, i + 3),
        forall|i: int| #[trigger] first_at(s, sep(), i) ==> !contains_at_all(s.take(i), sep()),
        boundary(s, 0, 0),
        forall|i: int| #[trigger] first_at(s, sep(), i) ==> s =~= s.take(i) + sep() + s.skip(i + 3),
        forall|i: int| #[trigger] boundary(s, 0, i) ==> i == 0,
        forall|i: int, b: int| #[trigger] boundary(s, b, i) && b > 0 ==> i > 0,
{
    let x = sep();
    nothing(s);
    assert forall|i: int, b: int| #![trigger has_at(s, x, i), boundary(s, b, i)] has_at(s, x, i) && boundary(s, b, i) implies boundary(s, b + 3, i + 3) by {
        assert(s.subrange(i, i + 3) =~= x);
        assert(s.subrange(i, i + 3)[0] == ':' && s.subrange(i, i + 3)[1] == '/' && s.subrange(i, i + 3)[2] == '/');
        assert(s[i] == ':' && s[i + 1] == '/' && s[i + 2] == '/');
        assert(s.take(i + 1).last() == ':' && s.take(i + 2).last() == '/' && s.take(i + 3).last() == '/');
        assert(s.take(i + 1).drop_last() =~= s.take(i));
        assert(s.take(i + 2).drop_last() =~= s.take(i + 1));
        assert(s.take(i + 3).drop_last() =~= s.take(i + 2));
        assert(bytes(s.take(i + 1)) == b + 1);
        assert(bytes(s.take(i + 2)) == b + 2);
        assert(bytes(s.take(i + 3)) == b + 3);
    }
    assert forall|i: int| #[trigger] first_at(s, x, i) implies !contains_at_all(s.take(i), x) by {
        assert forall|j: int| !#[trigger] has_at(s.take(i), x, j) by {
            if has_at(s.take(i), x, j) {
                assert(s.take(i).subrange(j, j + 3) =~= s.subrange(j, j + 3));
                assert(has_at(s, x, j));
            }
        }
    }
    assert forall|i: int| #[trigger] first_at(s, x, i) implies s =~= s.take(i) + x + s.skip(i + 3) by {
        assert(has_at(s, x, i));
        assert(s =~= s.take(i) + s.subrange(i, i + 3) + s.skip(i + 3));
    }
    assert forall|i: int| #[trigger] boundary(s, 0, i) implies i == 0 by { same(s, 0, i, 0); }
}
/// Where a canonical path leads.
pub broadcast proof fn canonical(d: Seq<char>, p: Seq<char>)
    ensures #![trigger d + seq![':'] + p] drive_name(d) && path_ok(p) ==> names(d + seq![':'] + p, Some(upper(d)), p)
{
    if drive_name(d) && path_ok(p) { joined(d + seq![':'] + p, d, p); }
}
pub broadcast proof fn content_of(s: Storage, d: Seq<char>, n: Seq<char>)
    ensures #[trigger] s.content((d, n)) == (if s.drives@.contains_key(d) { s.drives@[d].drive.held(n) } else { None })
{}
"""


# Commands.

WORLD = """
pub struct Scope { x: u8 }
impl Scope {
    pub uninterp spec fn args(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    fn nargs(&self) -> (r: usize) ensures r == self.args().len() { unimplemented!() }
    #[verifier::external_body]
    fn get_string(&self, i: u8) -> (r: &str)
        requires i < self.args().len()
        ensures r@ == self.args()[i as int]
    { unimplemented!() }
}
/// Any stored program.
pub struct Program { pub dirty: Ghost<bool>, pub name: Ghost<Option<Seq<char>>>, pub source: Ghost<Seq<char>> }
pub uninterp spec fn relined(s: Seq<char>) -> Seq<char>;
impl Program {
    #[verifier::external_body]
    fn is_dirty(&self) -> (r: bool) ensures r ==> self.dirty@, self.dirty@ ==> r { unimplemented!() }
    #[verifier::external_body]
    fn load(&mut self, name: Option<&str>, text: &str)
        ensures
            !final(self).dirty@, final(self).name@ == (match name { Some(n) => Some(n@), None => None }),
            final(self).source@ == relined(text@),
    { unimplemented!() }
    #[verifier::external_body]
    fn name(&self) -> (r: Option<&str>)
        ensures self.name@ == (match r { Some(n) => Some(n@), None => None })
    { unimplemented!() }
    #[verifier::external_body]
    fn set_name(&mut self, name: &str)
        ensures !final(self).dirty@, final(self).name@ == Some(name@), final(self).source == old(self).source
    { unimplemented!() }
    #[verifier::external_body]
    fn text(&self) -> (r: String) ensures r@ == self.source@ { unimplemented!() }
}
/// A console: the answers to questions.
pub struct Console { pub asked: Ghost<Seq<Seq<char>>> }
impl Console {
    #[verifier::external_body]
    fn print(&mut self, text: &str) -> (r: IoResult<()>) ensures final(self).asked == old(self).asked { unimplemented!() }
}
#[verifier::external_body]
fn read_line(console: &mut Console, prompt: &str, previous: &str, history: Option<u8>) -> (r: IoResult<String>)
    ensures
        r is Ok ==> final(console).asked@ == old(console).asked@.push(r->Ok_0@),
        r is Err ==> final(console).asked == old(console).asked,
{ unimplemented!() }
pub open spec fn yes(s: Seq<char>) -> bool { upper(s) =~= seq!['T', 'R', 'U', 'E'] || upper(s) =~= seq!['Y', 'E', 'S'] || upper(s) =~= seq!['Y'] }
pub enum MachineAction { Clear, Run(String) }
pub uninterp spec fn decoded(b: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
fn from_utf8(b: Vec<u8>) -> (r: Result<String, u8>)
    ensures match r { Ok(s) => decoded(b@) == Some(s@), Err(_) => decoded(b@) is None }
{ unimplemented!() }
fn no_error(r: Result<bool, String>) -> (b: bool) ensures b == (r is Ok && r->Ok_0) { match r { Ok(b) => b, Err(_) => false } }
/// Whether discarding changes was confirmed, if there are any.
pub open spec fn confirmed(dirty: bool, before: Seq<Seq<char>>, after: Seq<Seq<char>>) -> bool {
    !dirty || (after.len() == before.len() + 1 && yes(after.last()))
}
"""


def commanded(body):
    """Spells out what the standard library does; cells are what they hold."""
    for a, b in (
            (r"debug_assert_eq!\((\d+), (.*?)\);", r"assert_holds(\1 == \2);"),
            (r"&\*self\.(\w+)\.borrow\(\)", r"&self.\1"),
            (r"&mut \*self\.(\w+)\.borrow_mut\(\)", r"&mut self.\1"),
            (r"(self\s*\.\w+)\s*\.borrow(?:_mut)?\(\)", r"\1"),
            (r"let (?:mut )?storage = self\.storage;\n", ""),
            (r"(?<![\w.])storage(\s*\.)(?=\w+\()", r"self.storage\1"),
            (r"String::from_utf8\(", "from_utf8("),
            (r"io::Error::new\(", "io_error("),
            (r"io::ErrorKind::", "ErrorKind::"),
            (r"format!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)", "opaque()"),
            (r"\.into\(\)", ""),
            (r'\b(\w+)\.to_owned\(\)', r"owned(\1)"),
            (r'scope\.get_string\((\d)\)\.to_owned\(\)', r"owned(scope.get_string(\1))"),
            (r'"([^"]*)"\.to_owned\(\)', r'opaque()'),
            (r"content\.as_bytes\(\)", "as_bytes(&content)"),
            (r"parse_boolean\((.*?)\)\.unwrap_or\(false\)", r"no_error(parse_boolean(\1))"),
            (r"\.await\b", ""),
            (r"s\.to_uppercase\(\)", "to_uppercase(s)"),
            (r'raw == ("\w+")', r"same_chars(&raw, \1)"),
    ):
        body = re.sub(a, b, body)
    return body


CELLS = (commanded, "cells are what they hold, files and texts are called through functions with assumed contracts, and await is dropped")


def commands(u):
    storage(u, last=False)
    f = File(PROGRAM)
    u.add(WORLD)
    u.add(re.sub(r"&str", "&'static str", f.item("const", "DEFAULT_EXTENSION")) if False else 'const DEFAULT_EXTENSION: &\'static str = %s;' % f.constant("DEFAULT_EXTENSION"))
    for name in ("LoadCommand", "NewCommand", "RunCommand", "SaveCommand"):
        u.add("pub struct %s { pub storage: Storage, pub program: Program, pub console: Console, pub actions: Vec<MachineAction> }" % name)
    u.fn(File("std/src/strings.rs"), "parse_boolean", contract="ensures r is Ok ==> r->Ok_0 == yes(s@)", rewrite=CELLS,
         start='proof { reveal_strlit("TRUE"); reveal_strlit("YES"); reveal_strlit("Y"); reveal_strlit("FALSE"); reveal_strlit("NO"); reveal_strlit("N"); assert("TRUE"@ =~= seq![\'T\', \'R\', \'U\', \'E\']); assert("YES"@ =~= seq![\'Y\', \'E\', \'S\']); assert("Y"@ =~= seq![\'Y\']); assert("FALSE"@.len() == 5); assert("NO"@.len() == 2); assert("N"@[0] == \'N\'); }')
    world = [(r"&dyn Program", "&Program", "the program is any program that keeps the contract"), (r"&mut dyn Console", "&mut Console", "the console is any console that keeps the contract"),
             (r"io::Result<", "IoResult<", "errors of input and output have no source")]
    u.fn(f, "continue_if_modified", contract="""
    ensures
        r is Ok && r->Ok_0 ==> confirmed(program.dirty@, old(console).asked@, final(console).asked@),
        !program.dirty@ ==> r == Ok::<bool, CallError>(true),
""", subst=world, rewrite=CELLS)
    cmd = dict(rewrite=CELLS, subst=[(r"&self, ", "&mut self, ", "what cells of the command hold is part of it"), (r"Scope<'_>", "Scope", "")])
    ext = """reveal_strlit("bas"); assert("bas"@ =~= seq!['b', 'a', 's']); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty());"""
    u.add("""
/// The extension of programs.
pub open spec fn bas() -> Seq<char> { seq!['b', 'a', 's'] }
#[verifier::external_body]
proof fn upper_plain() ensures plain(ascii_upper(bas())) {}
pub broadcast proof fn same_places(a: Storage, b: Storage, f: Option<(Seq<char>, Seq<char>)>, t: Seq<char>)
    requires #[trigger] a.same_except(b, f)
    ensures #[trigger] a.file(t) == b.file(t)
{
    assert(forall|d: Option<Seq<char>>| a.drives@.contains_key(a.drive_of(d)) == b.drives@.contains_key(b.drive_of(d)));
    assert(forall|d: Option<Seq<char>>| #[trigger] a.drive_of(d) == b.drive_of(d));
}
/// The file that LOAD and SAVE use for a text.
pub open spec fn program_file(s: Storage, t: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    match s.file(t) { Some(f) => Some((f.0, extended(f.1, bas()))), None => None }
}
""")
    for kind, name, contract in (
            ("LoadCommand", "load", """
    requires old(self).storage.wf(), scope.args().len() == 1
    ensures
        final(self).storage == old(self).storage,
        final(self).program != old(self).program ==> {
            let f = program_file(old(self).storage, scope.args()[0]);
            &&& r is Ok && f is Some && old(self).storage.content(f->Some_0) is Some
            &&& decoded(old(self).storage.content(f->Some_0)->Some_0) is Some
            &&& final(self).program.source@ == relined(decoded(old(self).storage.content(f->Some_0)->Some_0)->Some_0)
            &&& final(self).program.name@ is Some && old(self).storage.file(final(self).program.name@->Some_0) == f && !final(self).program.dirty@
            &&& confirmed(old(self).program.dirty@, old(self).console.asked@, final(self).console.asked@)
        },
        r is Ok && !old(self).program.dirty@ ==> final(self).program.name@ is Some && final(self).actions@.len() == old(self).actions@.len() + 1,
        final(self).program != old(self).program ==> final(self).actions@ == old(self).actions@.push(MachineAction::Clear),
"""),
            ("NewCommand", "new_program", """
    requires scope.args().len() == 0
    ensures
        final(self).storage == old(self).storage,
        final(self).program != old(self).program ==> {
            &&& final(self).program.source@ == relined(seq![]) && final(self).program.name@ is None && !final(self).program.dirty@
            &&& confirmed(old(self).program.dirty@, old(self).console.asked@, final(self).console.asked@)
            &&& final(self).actions@ == old(self).actions@.push(MachineAction::Clear)
        },
        r is Ok && !old(self).program.dirty@ ==> final(self).program.name@ is None && final(self).program.source@ == relined(seq![]),
"""),
            ("RunCommand", "run", """
    requires scope.args().len() == 0
    ensures
        final(self).storage == old(self).storage, final(self).program == old(self).program,
        r is Ok, final(self).actions@.len() == old(self).actions@.len() + 1, final(self).actions@.last() is Run,
        final(self).actions@.last()->Run_0@ == old(self).program.source@,
"""),
            ("SaveCommand", "save", """
    requires old(self).storage.wf(), scope.args().len() <= 1
    ensures
        ({
            let t = if scope.args().len() == 1 { Some(scope.args()[0]) } else { old(self).program.name@ };
            let f = if t is Some { program_file(old(self).storage, t->Some_0) } else { None };
            &&& final(self).storage.wf() && final(self).storage.same_except(old(self).storage, f)
            &&& final(self).program.source == old(self).program.source
            &&& final(self).program != old(self).program ==> {
                &&& f is Some && final(self).storage.content(f->Some_0) == Some(utf8(old(self).program.source@))
                &&& final(self).program.name@ is Some && final(self).storage.file(final(self).program.name@->Some_0) == f && !final(self).program.dirty@
            }
            &&& r is Ok ==> f is Some && final(self).storage.content(f->Some_0) == Some(utf8(old(self).program.source@)) && !final(self).program.dirty@
        }),
"""),
    ):
        u.add("impl %s {" % kind)
        fn = "exec" if kind == "x" else "async_exec"
        u.fn(f, fn, within="impl Callable for " + kind, rename=name, contract=contract, start='proof { %s upper_plain(); }\nbroadcast use same_places;' % ext, **cmd)
        u.add("}")
    c = File(COMMANDS)
    for kind, fn, name, contract in (
            ("KillCommand", "async_exec", "kill", """
    requires old(self).storage.wf(), scope.args().len() == 1
    ensures
        ({
            let f = old(self).storage.file(scope.args()[0]);
            &&& final(self).storage.wf() && final(self).storage.same_except(old(self).storage, if r is Ok { f } else { None })
            &&& r is Ok ==> f is Some && old(self).storage.content(f->Some_0) is Some && final(self).storage.content(f->Some_0) is None
        }),
"""),
            ("CopyCommand", "async_exec", "copy", """
    requires old(self).storage.wf(), scope.args().len() == 2
    ensures
        ({
            let s = old(self).storage;
            let src = s.file(scope.args()[0]);
            let dest = if s.root(scope.args()[1]) is Some && src is Some { Some((s.root(scope.args()[1])->Some_0, src->Some_0.1)) } else { s.file(scope.args()[1]) };
            &&& final(self).storage.wf() && final(self).storage.same_except(s, dest)
            &&& r is Ok ==> src is Some && dest is Some && s.content(src->Some_0) is Some && final(self).storage.content(dest->Some_0) == s.content(src->Some_0)
        }),
"""),
            ("CdCommand", "exec", "cd", """
    requires old(self).storage.wf(), scope.args().len() == 1
    ensures
        final(self).storage.wf(), final(self).storage.drives == old(self).storage.drives,
        (r is Ok) == (old(self).storage.root(scope.args()[0]) is Some),
        r is Ok ==> final(self).storage.current.0@ == old(self).storage.root(scope.args()[0])->Some_0,
        r is Err ==> final(self).storage == old(self).storage,
"""),
            ("MountCommand", "exec", "mount", """
    requires old(self).storage.wf(), scope.args().len() == 0 || scope.args().len() == 2
    ensures
        final(self).storage.wf(), final(self).storage.current == old(self).storage.current,
        scope.args().len() == 0 || r is Err ==> final(self).storage == old(self).storage,
        scope.args().len() == 2 && r is Ok ==> drive_name(scope.args()[1]) && !old(self).storage.drives@.contains_key(upper(scope.args()[1]))
            && exists|m: MountedDrive| m.uri@ == scope.args()[0] && final(self).storage.drives@ == #[trigger] old(self).storage.drives@.insert(upper(scope.args()[1]), m),
"""),
            ("UnmountCommand", "exec", "unmount", """
    requires old(self).storage.wf(), scope.args().len() == 1
    ensures
        final(self).storage.wf(), final(self).storage.current == old(self).storage.current,
        (r is Ok) == (drive_name(scope.args()[0]) && old(self).storage.drives@.contains_key(upper(scope.args()[0])) && old(self).storage.current.0@ != upper(scope.args()[0])),
        r is Ok ==> final(self).storage.drives@ == old(self).storage.drives@.remove(upper(scope.args()[0])),
        r is Err ==> final(self).storage == old(self).storage,
"""),
    ):
        u.add("pub struct %s { pub storage: Storage, pub console: Console }\nimpl %s {" % (kind, kind))
        if kind == "MountCommand":
            u.add("#[verifier::external_body]\nfn show_drives(storage: &Storage, console: &mut Console) -> (r: IoResult<()>) { unimplemented!() }")
        kw = dict(cmd, subst=cmd["subst"] + [(r"(?<!::)\bshow_drives\(", "Self::show_drives(", "")])
        u.fn(c, fn, within="impl Callable for " + kind, rename=name, contract=contract, **kw)
        u.add("}")
    u.add("}\nfn main() {}")



# Drives.

FILES = """
/// The files that a drive lists, with their sizes.
pub struct DriveFiles { pub sizes: Ghost<Map<Seq<char>, int>> }
#[derive(Clone, Copy)]
pub struct DiskSpace { x: u8 }
#[derive(Clone, Copy)]
pub struct Date { x: u8 }
pub struct Metadata { pub date: Date, pub length: u64 }
pub struct Entries { pub map: Ghost<Map<Seq<char>, int>> }
impl Entries {
    #[verifier::external_body]
    fn new() -> (r: Entries) ensures r.map@ == Map::<Seq<char>, int>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, name: String, m: Metadata) ensures final(self).map@ == old(self).map@.insert(name@, m.length as int) { unimplemented!() }
}
impl DriveFiles {
    #[verifier::external_body]
    fn new(entries: Entries, quota: Option<DiskSpace>, free: Option<DiskSpace>) -> (r: DriveFiles) ensures r.sizes@ == entries.map@ { unimplemented!() }
}
pub open spec fn lists(r: DriveFiles, held: spec_fn(Seq<char>) -> Option<Seq<u8>>) -> bool {
    forall|n: Seq<char>| (#[trigger] r.sizes@.contains_key(n) == (held(n) is Some)) && (held(n) is Some ==> r.sizes@[n] == held(n)->Some_0.len())
}
#[verifier::external_body]
fn some_date() -> Date { unimplemented!() }
"""

MEMORY_MODEL = """
/// Who may read a file.
pub struct Readers { pub set: Ghost<Set<Seq<char>>> }
impl Readers {
    #[verifier::external_body]
    fn new() -> (r: Readers) ensures r.set@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, name: &String) ensures final(self).set@ == old(self).set@.remove(name@) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, name: String) ensures final(self).set@ == old(self).set@.insert(name@) { unimplemented!() }
    #[verifier::external_body]
    fn sorted(&self) -> (r: Vec<String>) ensures texts(r@) == self.set@ { unimplemented!() }
}
/// The texts of a list.
pub open spec fn texts(s: Seq<String>) -> Set<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Set::empty() } else { texts(s.drop_last()).insert(s.last()@) }
}
pub open spec fn minus(a: Set<Seq<char>>, s: Seq<String>) -> Set<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { a } else { minus(a, s.drop_last()).remove(s.last()@) }
}
pub open spec fn plus(a: Set<Seq<char>>, s: Seq<String>) -> Set<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { a } else { plus(a, s.drop_last()).insert(s.last()@) }
}
pub broadcast proof fn minus_all(a: Set<Seq<char>>, s: Seq<String>)
    ensures #[trigger] minus(a, s) =~= a.difference(texts(s))
    decreases s.len()
{
    if s.len() > 0 { minus_all(a, s.drop_last()); }
}
pub broadcast proof fn plus_all(a: Set<Seq<char>>, s: Seq<String>)
    ensures #[trigger] plus(a, s) =~= a.union(texts(s))
    decreases s.len()
{
    if s.len() > 0 { plus_all(a, s.drop_last()); }
}
pub struct FileAcls { pub readers: Vec<String> }
impl FileAcls {
    fn readers(&self) -> (r: &Vec<String>) ensures *r == self.readers { &self.readers }
    fn of_readers(readers: Vec<String>) -> (r: FileAcls) ensures r.readers == readers { FileAcls { readers } }
}
pub type Entry = (Vec<u8>, Readers);
pub struct Programs { pub map: Ghost<Map<Seq<char>, Entry>> }
impl Programs {
    pub open spec fn view(&self) -> Map<Seq<char>, Entry> { self.map@ }
    #[verifier::external_body]
    fn remove(&mut self, k: &str) -> (r: Option<Entry>)
        ensures final(self)@ == old(self)@.remove(k@), (r is Some) == old(self)@.contains_key(k@)
    { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&Entry>)
        ensures match r { Some(m) => self@.contains_key(k@) && *m == self@[k@], None => !self@.contains_key(k@) }
    { unimplemented!() }
    #[verifier::external_body]
    fn get_mut(&mut self, k: &str) -> (r: Option<&mut Entry>)
        ensures match r {
            Some(m) => old(self)@.contains_key(k@) && *m == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(m)),
            None => !old(self)@.contains_key(k@) && *final(self) == *old(self),
        }
    { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: String, m: Entry) ensures final(self)@ == old(self)@.insert(k@, m) { unimplemented!() }
    /// The names of the files, each of which comes once.
    #[verifier::external_body]
    fn names(&self) -> (r: Vec<String>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(#[trigger] r@[i]@),
            forall|n: Seq<char>| #[trigger] self@.contains_key(n) ==> exists|i: int| 0 <= i < r@.len() && r@[i]@ == n,
    { unimplemented!() }
}
#[verifier::external_body]
fn copied(a: &[u8]) -> (r: Vec<u8>) ensures r@ == a@ { unimplemented!() }
fn copied_vec(a: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == a@ { copied(a.as_slice()) }
#[verifier::external_body]
fn clone_into(a: &[u8], b: &mut Vec<u8>) ensures final(b)@ == a@ { unimplemented!() }
impl InMemoryDrive {
    pub open spec fn held(&self, n: Seq<char>) -> Option<Seq<u8>> { if self.programs@.contains_key(n) { Some(self.programs@[n].0@) } else { None } }
    /// Who may read a file.
    pub open spec fn allowed(&self, n: Seq<char>) -> Set<Seq<char>> { self.programs@[n].1.set@ }
}
"""


def kept(body):
    """Spells out what the standard library does."""
    for a, b in (
            (r"io::Error::new\(", "io_error("),
            (r"io::Error::other\(\"[^\"]*\"\)", "io_error(ErrorKind::Other, opaque())"),
            (r"io::ErrorKind::", "ErrorKind::"),
            (r"ErrorKind::(\w+), \"[^\"]*\"", r"ErrorKind::\1, opaque()"),
            (r"content\.clone_into\(prev_content\)", "clone_into(content, prev_content)"),
            (r"Ok\(content\.to_owned\(\)\)", "Ok(copied_vec(content))"),
            (r"content\.to_owned\(\)", "copied(content)"),
            (r"\b(name|reader)\.to_owned\(\)", r"owned(\1)"),
            (r"HashSet::new\(\)", "Readers::new()"),
            (r"readers\.iter\(\)\.map\(String::to_owned\)\.collect::<Vec<String>>\(\)", "readers.sorted()"),
            (r"let mut readers = readers\.sorted\(\);", "let readers = readers.sorted();"),
            (r"readers\.sort\(\);", ""),
            (r"FileAcls::default\(\)\.with_readers\(readers\)", "FileAcls::of_readers(readers)"),
            (r"for reader in (add|remove)\.readers\(\) \{", r"let mut at = 0;\nwhile at < \1.readers().len() {\nlet reader = &\1.readers()[at];\nat += 1;"),
            (r"let date = time::OffsetDateTime::from_unix_timestamp\(\w+\)\.unwrap\(\);", "let date = some_date();"),
            (r"BTreeMap::(?:new|default)\(\)", "Entries::new()"),
            (r"for \(name, \(contents, _readers\)\) in &self\.programs \{", "let names = self.programs.names();\nlet mut at = 0;\nwhile at < names.len() {\nlet name = &names[at];\nlet (contents, _readers) = self.programs.get(name).unwrap();\nat += 1;"),
            (r"name\.clone\(\)", "owned(name)"),
            (r"\.await\b", ""),
    ):
        body = re.sub(a, b, body)
    return body


KEPT = (kept, "maps, sets and vectors are called through functions with assumed contracts, texts of errors are opaque, and await is dropped")
DRIVER = [(r"io::Result<", "IoResult<", "errors of input and output have no source"), (r"\basync fn", "fn", "operations of drives do not wait")]


def memory(u):
    f = File(MEMORY)
    u.add(OPEN)
    u.add(p16.TEXTS)
    u.add(TEXTS)
    u.add(FILES)
    u.add(public(re.sub(r"HashMap<String, \(Vec<u8>, HashSet<String>\)>", "Programs", re.sub(r"pub\(crate\) ", "", f.item("struct", "InMemoryDrive")))))
    u.add(MEMORY_MODEL)
    u.add("impl InMemoryDrive {")
    kw = dict(within="impl Drive for InMemoryDrive", subst=DRIVER, rewrite=KEPT)
    acl = "forall|n: Seq<char>| %sfinal(self).held(n) is Some && old(self).held(n) is Some ==> #[trigger] final(self).allowed(n) == old(self).allowed(n),"
    u.fn(f, "delete", contract=DRIVE["delete"] + "(r is Ok) == (old(self).held(name@) is Some), " + acl % "", **kw)
    u.fn(f, "get", contract=DRIVE["get"] + "(r is Ok) == (self.held(name@) is Some),", **kw)
    u.fn(f, "put", contract=DRIVE["put"] + "r is Ok, " + acl % "", **kw)
    u.fn(f, "get_acls", contract="""
    ensures
        (r is Ok) == (self.held(name@) is Some),
        r is Ok ==> texts(r->Ok_0.readers@) =~= self.allowed(name@),
""", **kw)
    loop = """
    invariant
        0 <= at <= %(w)s.readers@.len(),
        readers.set@ == %(op)s(%(from)s, %(w)s.readers@.take(at as int)),
    decreases %(w)s.readers@.len() - at
"""
    step = "proof { assert(%(w)s.readers@.take(at as int).drop_last() =~= %(w)s.readers@.take(at - 1)); }"
    u.fn(f, "update_acls", contract="""
    ensures
        """ + SAME + """ (r is Ok) == (old(self).held(name@) is Some),
        r is Ok ==> final(self).allowed(name@) =~= old(self).allowed(name@).difference(texts(remove.readers@)).union(texts(add.readers@)),
        """ + acl % "n != name@ && ", loops=[loop % {"w": "remove", "op": "minus", "from": "before"}, loop % {"w": "add", "op": "plus", "from": "between"}],
         loop_end={0: step % {"w": "remove"}, 1: step % {"w": "add"}},
         loop_after={0: "proof { between = readers.set@; assert(remove.readers@.take(at as int) =~= remove.readers@); assert(add.readers@.take(0) =~= Seq::empty()); }", 1: "proof { assert(add.readers@.take(at as int) =~= add.readers@); }"},
         start="broadcast use {minus_all, plus_all};\nlet ghost before = self.allowed(name@);\nlet ghost mut between = before;\nproof { assert(remove.readers@.take(0) =~= Seq::empty()); }", **kw)
    u.fn(f, "enumerate", contract="""
    ensures r is Ok, lists(r->Ok_0, |n: Seq<char>| self.held(n)),
""", loops=["""
    invariant
        0 <= at <= names@.len(),
        forall|i: int| 0 <= i < names@.len() ==> self.programs@.contains_key(#[trigger] names@[i]@),
        forall|n: Seq<char>| #[trigger] entries.map@.contains_key(n) ==> self.programs@.contains_key(n) && entries.map@[n] == self.programs@[n].0@.len(),
        forall|i: int| 0 <= i < at ==> entries.map@.contains_key(#[trigger] names@[i]@),
    decreases names@.len() - at
"""], **kw)
    u.add("}\n}\nfn main() {}")



DISK = """
/// A path on the disk: its components.
pub struct PathBuf { pub parts: Ghost<Seq<Seq<char>>> }
impl PathBuf {
    pub open spec fn view(&self) -> Seq<Seq<char>> { self.parts@ }
    /// A name without separators leads to an entry of the directory.
    #[verifier::external_body]
    fn join(&self, name: &str) -> (r: PathBuf)
        requires name@.len() == 0 || file_name(name@)
        ensures r@ == if name@.len() == 0 { self@ } else { self@.push(name@) }
    { unimplemented!() }
}
/// The disk: the contents of its files.  What directories and links there are is not known.
pub struct Disk { pub map: Ghost<Map<Seq<Seq<char>>, Seq<u8>>> }
impl Disk {
    pub open spec fn view(&self) -> Map<Seq<Seq<char>>, Seq<u8>> { self.map@ }
    /// Nothing but one file differs.
    pub open spec fn same_but(&self, old: Disk, p: Seq<Seq<char>>) -> bool {
        forall|q: Seq<Seq<char>>| q != p ==> #[trigger] self.at(q) == old.at(q)
    }
    pub open spec fn at(&self, p: Seq<Seq<char>>) -> Option<Seq<u8>> { if self@.contains_key(p) { Some(self@[p]) } else { None } }
    #[verifier::external_body]
    fn remove_file(&mut self, p: PathBuf) -> (r: IoResult<()>)
        ensures
            final(self).same_but(*old(self), p@), r is Ok ==> old(self).at(p@) is Some && final(self).at(p@) is None,
            r is Err ==> final(self).at(p@) == old(self).at(p@),
    { unimplemented!() }
    #[verifier::external_body]
    fn open(&self, p: PathBuf) -> (r: IoResult<Input>)
        ensures r is Ok ==> self.at(p@) == Some(r->Ok_0.bytes@)
    { unimplemented!() }
}
/// A file that is read from its start.
pub struct Input { pub bytes: Ghost<Seq<u8>> }
fn buffered(i: Input) -> (r: Input) ensures r == i { i }
impl Input {
    #[verifier::external_body]
    fn read_to_end(self, to: &mut Vec<u8>) -> (r: IoResult<usize>)
        ensures r is Ok ==> final(to)@ == old(to)@ + self.bytes@
    { unimplemented!() }
}
/// Options to open a file, as they are by default.
pub struct OpenOptions { pub create: bool, pub create_new: bool, pub write: bool, pub truncate: bool, pub append: bool, pub read: bool }
impl OpenOptions {
    fn new() -> (r: OpenOptions)
        ensures !r.create, !r.create_new, !r.write, !r.truncate, !r.append, !r.read,
    { OpenOptions { create: false, create_new: false, write: false, truncate: false, append: false, read: false } }
    fn create(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { create: b, ..self }) { OpenOptions { create: b, ..self } }
    fn create_new(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { create_new: b, ..self }) { OpenOptions { create_new: b, ..self } }
    fn write(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { write: b, ..self }) { OpenOptions { write: b, ..self } }
    fn truncate(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { truncate: b, ..self }) { OpenOptions { truncate: b, ..self } }
    fn append(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { append: b, ..self }) { OpenOptions { append: b, ..self } }
    fn read(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { read: b, ..self }) { OpenOptions { read: b, ..self } }
    #[verifier::external_body]
    fn open(self, disk: &mut Disk, p: PathBuf) -> (r: IoResult<Output>)
        ensures
            final(disk).same_but(*old(disk), p@),
            r is Err ==> final(disk).at(p@) == old(disk).at(p@),
            r is Ok ==> {
                let was = old(disk).at(p@);
                let now = final(disk).at(p@);
                &&& was is None ==> (self.create || self.create_new) && now == Some(Seq::<u8>::empty())
                &&& was is Some ==> !self.create_new && now == Some(if self.truncate { Seq::<u8>::empty() } else { was->Some_0 })
                &&& r->Ok_0.path@ == p@ && r->Ok_0.at@ == if self.append { now->Some_0.len() as int } else { 0 }
            },
    { unimplemented!() }
}
/// A file that is written, and where.
pub struct Output { pub path: Ghost<Seq<Seq<char>>>, pub at: Ghost<int> }
/// What overwriting bytes of a file results in.
pub open spec fn overwritten(was: Seq<u8>, at: int, content: Seq<u8>) -> Seq<u8> {
    was.take(at) + content + if at + content.len() < was.len() { was.skip(at + content.len()) } else { Seq::empty() }
}
impl Output {
    #[verifier::external_body]
    fn write_all(&mut self, disk: &mut Disk, content: &[u8]) -> (r: IoResult<()>)
        requires old(disk).at(old(self).path@) is Some, 0 <= old(self).at@ <= old(disk).at(old(self).path@)->Some_0.len()
        ensures
            final(disk).same_but(*old(disk), old(self).path@), final(self).path == old(self).path,
            r is Ok ==> final(disk).at(old(self).path@) == Some(overwritten(old(disk).at(old(self).path@)->Some_0, old(self).at@, content@)),
    { unimplemented!() }
    #[verifier::external_body]
    fn sync_all(&self) -> (r: IoResult<()>) { unimplemented!() }
}
impl DirectoryDrive {
    pub open spec fn held(&self, n: Seq<char>) -> Option<Seq<u8>> { self.disk.at(self.dir@.push(n)) }
    /// Nothing outside of the directory differs.
    pub open spec fn contained(&self, old: DirectoryDrive) -> bool {
        &&& self.dir == old.dir
        &&& forall|p: Seq<Seq<char>>| !(p.len() == old.dir@.len() + 1 && p.drop_last() == old.dir@) ==> #[trigger] self.disk.at(p) == old.disk.at(p)
    }
}
proof fn within(d: Seq<Seq<char>>)
    ensures
        forall|n: Seq<char>| (#[trigger] d.push(n)).drop_last() == d,
        forall|n: Seq<char>, m: Seq<char>| n != m ==> #[trigger] d.push(n) != #[trigger] d.push(m),
{
    assert forall|n: Seq<char>| (#[trigger] d.push(n)).drop_last() == d by { assert(d.push(n).drop_last() =~= d); }
    assert forall|n: Seq<char>, m: Seq<char>| n != m implies #[trigger] d.push(n) != #[trigger] d.push(m) by { assert(d.push(n).last() == n); assert(d.push(m).last() == m); }
}
"""


def on_disk(body):
    """Says which disk is meant."""
    for a, b in (
            (r"\bfs::remove_file\(", "self.disk.remove_file("),
            (r"(?<!\w)File::open\(", "self.disk.open("),
            (r"\.open\(path\)", ".open(&mut self.disk, path)"),
            (r"self\.disk\.open\(&mut self\.disk, path\)", "self.disk.open(path)"),
            (r"io::BufReader::new\(", "buffered("),
            (r"output\.write_all\(", "output.write_all(&mut self.disk, "),
            (r"vec!\[\]", "Vec::new()"),
            (r"\.await\b", ""),
    ):
        body = re.sub(a, b, body)
    return body


ON_DISK = (on_disk, "calls of the operating system are calls to functions with assumed contracts that name the disk, and await is dropped")


def directory(u):
    f = File(DIRECTORY)
    u.add(OPEN)
    u.add(p16.TEXTS)
    u.add(TEXTS)
    u.add(public(re.sub(r"\}\s*$", "    pub disk: Disk,\n}", f.item("struct", "DirectoryDrive"))))
    u.add(DISK)
    u.add("impl DirectoryDrive {")
    kw = dict(within="impl Drive for DirectoryDrive", subst=DRIVER, rewrite=ON_DISK, start="proof { within(self.dir@); }")
    outside = "final(self).contained(*old(self)),\n"
    u.fn(f, "delete", contract=DRIVE["delete"] + outside, **kw)
    u.fn(f, "get", contract=DRIVE["get"], **kw)
    u.fn(f, "put", contract=DRIVE["put"] + outside, **dict(kw, start=kw["start"] + "\nproof { assert(forall|c: Seq<u8>| #[trigger] overwritten(Seq::empty(), 0, c) =~= c); }"))
    u.fn(f, "system_path", contract="""
    requires name@.len() == 0 || file_name(name@)
    ensures r is Some, r->Some_0@ == self.dir@ || (r->Some_0@.len() == self.dir@.len() + 1 && r->Some_0@.drop_last() == self.dir@),
""", **kw)
    u.add("}\n}\nfn main() {}")


UNITS = [storage, commands, memory, directory]
