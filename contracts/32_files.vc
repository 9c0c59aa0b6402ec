@ghost vx when PathB
// `Path` and `PathBuf`: the text of the path.
#[verifier::external_body]
pub struct PathB { v: () }
impl PathB { pub uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn path_new(s: &str) -> (r: &PathB) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn path_display(p: &PathB) -> (r: String) ensures r@ == p@ { unimplemented!() }
@end
@type Path => crate::vx::PathB
@type PathBuf => crate::vx::PathB
@call Path::new => crate::vx::path_new
@call Path::display => crate::vx::path_display
@ghost vx when World
// Everything outside the program: the files as they are now, and the commands run so far.
#[verifier::external_body]
pub struct Files { v: () }
pub struct Event { pub cmd: Seq<Seq<char>>, pub dir: Option<Seq<char>>, pub ok: bool, pub after: Files }
pub struct WorldV { pub before: Files, pub log: Seq<Event> }
#[verifier::external_body]
pub struct World { v: () }
impl World { pub uninterp spec fn view(&self) -> WorldV; }
// Only commands change files.
pub open spec fn disk(w: WorldV) -> Files { if w.log.len() == 0 { w.before } else { w.log.last().after } }
// The text of a file, if it is one that can be read.
pub uninterp spec fn file_text(f: Files, p: Seq<char>) -> Option<Seq<char>>;
@end
@ghost vx when IoError
#[verifier::external_body]
pub struct IoError { v: () }
impl VFmt for IoError { open spec fn fmt_as(&self, sp: Seq<char>) -> Seq<char> { io_text(*self) } }
pub uninterp spec fn io_text(e: IoError) -> Seq<char>;
@end
@ghost vx
#[verifier::external_body]
pub struct OpenOptions { v: () }
pub struct OpenV { pub read: bool, pub write: bool }
impl OpenOptions { pub uninterp spec fn view(&self) -> OpenV; }
#[verifier::external_body]
pub struct Stream { v: () }
pub struct StreamV { pub disk: Files, pub path: Seq<char>, pub how: OpenV, pub fresh: bool }
impl Stream { pub uninterp spec fn view(&self) -> StreamV; }
#[verifier::external_body]
pub fn open_options() -> (r: OpenOptions) ensures r@ == (OpenV { read: false, write: false }) { unimplemented!() }
#[verifier::external_body]
pub fn open_read(o: &mut OpenOptions, b: bool) -> (r: &mut OpenOptions) ensures (*r)@ == (OpenV { read: b, ..old(o)@ }), *final(o) == *final(r) { unimplemented!() }
#[verifier::external_body]
pub fn open_write(o: &mut OpenOptions, b: bool) -> (r: &mut OpenOptions) ensures (*r)@ == (OpenV { write: b, ..old(o)@ }), *final(o) == *final(r) { unimplemented!() }
// A file that can be read can be opened for reading.
#[verifier::external_body]
pub fn open_at(o: &OpenOptions, p: &PathB, w: &World) -> (r: Result<Stream, IoError>)
    ensures match r { Ok(s) => s@ == (StreamV { disk: disk(w@), path: p@, how: o@, fresh: true }), Err(_) => o@.read && !o@.write ==> file_text(disk(w@), p@) is None }
{ unimplemented!() }
#[verifier::external_body]
pub fn open_file(p: &PathB, w: &World) -> (r: Result<Stream, IoError>)
    ensures match r { Ok(s) => s@ == (StreamV { disk: disk(w@), path: p@, how: OpenV { read: true, write: false }, fresh: true }), Err(_) => file_text(disk(w@), p@) is None }
{ unimplemented!() }
#[verifier::external_body]
pub fn stream_text(s: &mut Stream, t: &mut String) -> (r: Result<usize, IoError>)
    ensures old(s)@.fresh && old(s)@.how.read ==> match r { Ok(_) => file_text(old(s)@.disk, old(s)@.path) is Some && final(t)@ == old(t)@ + file_text(old(s)@.disk, old(s)@.path)->0, Err(_) => file_text(old(s)@.disk, old(s)@.path) is None }
{ unimplemented!() }
#[verifier::external_body]
pub fn path_text_of(p: &PathB, w: &World) -> (r: Result<String, IoError>)
    ensures match r { Ok(s) => file_text(disk(w@), p@) == Some(s@), Err(_) => file_text(disk(w@), p@) is None }
{ unimplemented!() }
@end
@type std::fs::File => crate::vx::Stream
@type std::fs::OpenOptions => crate::vx::OpenOptions
@ghost vx when cow_owned
#[verifier::external_body]
pub fn cow_owned(s: String) -> (r: String) ensures r@ == s@ { unimplemented!() }
@end
@call Cow::into_owned => crate::vx::cow_owned
@call Cow::to_string => crate::vx::cow_owned
@call File::options => crate::vx::open_options
@call OpenOptions::new => crate::vx::open_options
@call OpenOptions::read => crate::vx::open_read
@call OpenOptions::write => crate::vx::open_write
@call OpenOptions::open => crate::vx::open_at + __w
@call File::open => crate::vx::open_file + __w
@call Read::read_to_string => crate::vx::stream_text
@call fs::read_to_string => crate::vx::path_text_of + __w
@ghost vx when path_file_name | base_name
// The last component of a path (`None` for `..` and the like), and the rest of a path below a directory.
pub uninterp spec fn base_name(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn below(p: Seq<char>, d: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
pub struct StripPrefixError { v: () }
#[verifier::external_body]
pub fn path_file_name(p: &PathB) -> (r: Option<&PathB>) ensures match r { Some(n) => base_name(p@) == Some(n@), None => base_name(p@) is None } { unimplemented!() }
#[verifier::external_body]
pub fn path_strip_prefix<'a>(p: &'a PathB, d: &PathB) -> (r: Result<&'a PathB, StripPrefixError>) ensures match r { Ok(n) => below(p@, d@) == Some(n@), Err(_) => below(p@, d@) is None } { unimplemented!() }
// A readable file has a name.
#[verifier::external_body]
pub broadcast proof fn axiom_file_named(f: Files, p: Seq<char>) ensures (#[trigger] file_text(f, p)) is Some ==> base_name(p) is Some {}
@end
@call Path::file_name => crate::vx::path_file_name
@call Path::strip_prefix => crate::vx::path_strip_prefix
@call Path::to_string_lossy => crate::vx::path_display
@call OsStr::to_string_lossy => crate::vx::path_display
@ghost sp
pub type Exts = Seq<ChromaticExtrinsic>;
// What parsing a text under a name gave: the outcome of the call.
pub uninterp spec fn parse_outcome(name: Seq<char>, text: Seq<char>, o: Result<Vec<ChromaticExtrinsic>, String>) -> bool;
// The name under which the functions of a file are reported.
pub open spec fn file_name(m: PathStripping, repo: Seq<char>, p: Seq<char>) -> Seq<char> {
    match m { PathStripping::FileName => base_name(p)->0, PathStripping::RepoRelative => match below(p, repo) { Some(q) => q, None => p } }
}
// A file is read, and its whole text parsed under its own name; a failure names the file or is the failure to read it.
pub open spec fn file_outcome(f: Files, m: PathStripping, repo: Seq<char>, p: Seq<char>, o: Result<Vec<ChromaticExtrinsic>, String>) -> bool {
    match file_text(f, p) {
        None => o is Err && exists|e: IoError| o->Err_0@ == p + ": "@ + #[trigger] io_text(e),
        Some(t) => text_outcome(file_name(m, repo, p), t, p, o),
    }
}
pub open spec fn text_outcome(n: Seq<char>, t: Seq<char>, p: Seq<char>, o: Result<Vec<ChromaticExtrinsic>, String>) -> bool {
    exists|q: Result<Vec<ChromaticExtrinsic>, String>| #[trigger] parse_outcome(n, t, q) && (match q {
        Ok(v) => o is Ok && o->Ok_0@ == v@,
        Err(e) => o is Err && o->Err_0@ == p + ": "@ + e@,
    })
}
// The functions of the files that parse, in the order of the files.
pub open spec fn gathered(f: Files, m: PathStripping, repo: Seq<char>, ps: Seq<PathB>, v: Exts, errs: bool) -> bool
    decreases ps.len()
{
    if ps.len() == 0 { v =~= Exts::empty() } else {
        exists|u: Exts, o: Result<Vec<ChromaticExtrinsic>, String>|
            gathered(f, m, repo, ps.drop_last(), u, errs) && #[trigger] file_outcome(f, m, repo, ps.last()@, o) && v == #[trigger] joined(u, o) && (errs || o is Ok)
    }
}
pub broadcast proof fn lemma_text_none(t: Seq<char>)
    ensures #[trigger] (Seq::<char>::empty() + t) == t
{ assert(Seq::<char>::empty() + t =~= t); }
pub open spec fn joined(u: Exts, o: Result<Vec<ChromaticExtrinsic>, String>) -> Exts { match o { Ok(w) => u + w@, Err(_) => u } }
pub broadcast proof fn lemma_gathered_none(f: Files, m: PathStripping, repo: Seq<char>, ps: Seq<PathB>, v: Exts, errs: bool)
    requires ps.len() == 0, v.len() == 0
    ensures #[trigger] gathered(f, m, repo, ps, v, errs)
{}
pub broadcast proof fn lemma_gathered(f: Files, m: PathStripping, repo: Seq<char>, ps: Seq<PathB>, qs: Seq<PathB>, p: Seq<char>, u: Exts, v: Exts, o: Result<Vec<ChromaticExtrinsic>, String>, errs: bool)
    requires #[trigger] gathered(f, m, repo, ps, u, errs), #[trigger] file_outcome(f, m, repo, p, o), errs || o is Ok, qs.len() > 0, qs.last()@ == p, ps =~= qs.drop_last(), v =~= joined(u, o)
    ensures #[trigger] gathered(f, m, repo, qs, v, errs)
{
    assert(ps == qs.drop_last());
    assert(v == joined(u, o));
}
@end
@fn parse::read_file
@fmt
@params __w: &crate::vx::World
@pass __w
@ensures
        match r {
            Ok(s) => file_text(disk(__w@), file@) == Some(s@),
            Err(s) => file_text(disk(__w@), file@) is None && exists|e: IoError| s@ == file@ + ": "@ + #[trigger] io_text(e),
        },
@at start
    broadcast use lemma_text_none;
@fn parse::PathStripping::strip
@requires
        *self == PathStripping::FileName ==> base_name(path@) is Some,
@ensures
        r@ == file_name(*self, repo@, path@),
@fn parse::pallet::parse_file_in_repo
@params __w: &crate::vx::World
@pass __w
@fmt
@ensures
        file_outcome(disk(__w@), PathStripping::RepoRelative, repo@, file@, r),
@fn parse::pallet::parse_file
@at start
    broadcast use axiom_file_named;
@params __w: &crate::vx::World
@pass __w
@fmt
@ensures
        file_outcome(disk(__w@), PathStripping::FileName, "."@, file@, r),
@fn parse::pallet::parse_files_in_repo
@params __w: &crate::vx::World
@pass __w
@ensures
        match r {
            Ok(v) => gathered(disk(__w@), PathStripping::RepoRelative, repo@, paths@, v@, false),
            Err(e) => exists|i: int| 0 <= i < paths.len() && file_outcome(disk(__w@), PathStripping::RepoRelative, repo@, #[trigger] paths[i]@, Err::<Vec<ChromaticExtrinsic>, String>(e)),
        },
@at start
    broadcast use {lemma_gathered_none, lemma_gathered};
@loop 0 inv
            invariant
                gathered(disk(__w@), PathStripping::RepoRelative, repo@, $src@.take($i as int), res@, false),
@loop 0 after
        proof { assert($src@.take($src@.len() as int) =~= $src@); }
@fn parse::pallet::parse_files
@params __w: &crate::vx::World
@pass __w
@ensures
        match r {
            Ok(v) => gathered(disk(__w@), PathStripping::FileName, "."@, paths@, v@, false),
            Err(e) => exists|i: int| 0 <= i < paths.len() && file_outcome(disk(__w@), PathStripping::FileName, "."@, #[trigger] paths[i]@, Err::<Vec<ChromaticExtrinsic>, String>(e)),
        },
@at start
    broadcast use {lemma_gathered_none, lemma_gathered};
@loop 0 inv
            invariant
                gathered(disk(__w@), PathStripping::FileName, "."@, $src@.take($i as int), res@, false),
@loop 0 after
        proof { assert($src@.take($src@.len() as int) =~= $src@); }
@fn parse::pallet::try_parse_files_in_repo
@params __w: &crate::vx::World
@pass __w
@ensures
        gathered(disk(__w@), PathStripping::RepoRelative, repo@, paths@, r@, true),
@at start
    broadcast use {lemma_gathered_none, lemma_gathered};
@loop 0 inv
            invariant
                gathered(disk(__w@), PathStripping::RepoRelative, repo@, $src@.take($i as int), res@, true),
@loop 0 after
        proof { assert($src@.take($src@.len() as int) =~= $src@); }
@fn parse::pallet::try_parse_files
@params __w: &crate::vx::World
@pass __w
@ensures
        gathered(disk(__w@), PathStripping::FileName, "."@, paths@, r@, true),
@at start
    broadcast use {lemma_gathered_none, lemma_gathered};
@loop 0 inv
            invariant
                gathered(disk(__w@), PathStripping::FileName, "."@, $src@.take($i as int), res@, true),
@loop 0 after
        proof { assert($src@.take($src@.len() as int) =~= $src@); }
@end
