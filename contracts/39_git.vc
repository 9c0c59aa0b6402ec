@ghost vx when cmd_new | CommandV
// `std::process::Command`: the command line is collected by value; running it is an event in the world.
#[verifier::external_body]
pub struct Command { v: () }
pub struct CommandV { pub line: Seq<Seq<char>>, pub dir: Option<Seq<char>> }
impl Command { pub uninterp spec fn view(&self) -> CommandV; }
#[verifier::external_body]
pub struct ExitStatus { v: () }
impl ExitStatus { pub uninterp spec fn view(&self) -> bool; }
pub struct Output { pub status: ExitStatus, pub stdout: Vec<u8>, pub stderr: Vec<u8> }
pub trait VArg { spec fn word(&self) -> Seq<char>; }
impl VArg for &str { open spec fn word(&self) -> Seq<char> { self@ } }
impl VArg for String { open spec fn word(&self) -> Seq<char> { self@ } }
impl VArg for &String { open spec fn word(&self) -> Seq<char> { self@ } }
impl VArg for &&str { open spec fn word(&self) -> Seq<char> { self@ } }
pub trait VArgs { spec fn words(&self) -> Seq<Seq<char>>; }
impl<T: VArg, const N: usize> VArgs for [T; N] { open spec fn words(&self) -> Seq<Seq<char>> { Seq::new(N as nat, |i: int| self@[i].word()) } }
impl<T: VArg, const N: usize> VArgs for &[T; N] { open spec fn words(&self) -> Seq<Seq<char>> { Seq::new(N as nat, |i: int| self@[i].word()) } }
impl<T: VArg> VArgs for &[T] { open spec fn words(&self) -> Seq<Seq<char>> { Seq::new(self@.len(), |i: int| self@[i].word()) } }
impl<T: VArg> VArgs for Vec<T> { open spec fn words(&self) -> Seq<Seq<char>> { Seq::new(self@.len(), |i: int| self@[i].word()) } }
impl<T: VArg> VArgs for &Vec<T> { open spec fn words(&self) -> Seq<Seq<char>> { Seq::new(self@.len(), |i: int| self@[i].word()) } }
#[verifier::external_body]
pub fn cmd_new(s: &str) -> (r: Command) ensures r@ == (CommandV { line: seq![s@], dir: None }) { unimplemented!() }
#[verifier::external_body]
pub fn cmd_arg<'a, T: VArg>(c: &'a mut Command, s: T) -> (r: &'a mut Command)
    ensures (*r)@ == (CommandV { line: old(c)@.line.push(s.word()), ..old(c)@ }), *final(c) == *final(r)
{ unimplemented!() }
#[verifier::external_body]
pub fn cmd_args<'a, T: VArgs>(c: &'a mut Command, s: T) -> (r: &'a mut Command)
    ensures (*r)@ == (CommandV { line: old(c)@.line + s.words(), ..old(c)@ }), *final(c) == *final(r)
{ unimplemented!() }
#[verifier::external_body]
pub fn cmd_dir<'a>(c: &'a mut Command, p: &PathB) -> (r: &'a mut Command)
    ensures (*r)@ == (CommandV { dir: Some(p@), ..old(c)@ }), *final(c) == *final(r)
{ unimplemented!() }
pub open spec fn logged(a: WorldV, b: WorldV, c: CommandV, ok: bool) -> bool {
    &&& b.before == a.before && b.log == a.log.push(b.log.last())
    &&& b.log.last().cmd == c.line && b.log.last().dir == c.dir && b.log.last().ok == ok
}
// Runs the command to its end.
#[verifier::external_body]
pub fn cmd_output(c: &mut Command, w: &mut World) -> (r: Result<Output, IoError>)
    ensures final(c)@ == old(c)@, logged(old(w)@, final(w)@, old(c)@, r is Ok && r->Ok_0.status@)
{ unimplemented!() }
#[verifier::external_body]
pub fn cmd_status(c: &mut Command, w: &mut World) -> (r: Result<ExitStatus, IoError>)
    ensures final(c)@ == old(c)@, logged(old(w)@, final(w)@, old(c)@, r is Ok && r->Ok_0@)
{ unimplemented!() }
#[verifier::external_body]
pub fn status_success(s: &ExitStatus) -> (r: bool) ensures r == s@ { unimplemented!() }
@end
@type std::process::Command => crate::vx::Command
@type Command => crate::vx::Command
@type Output => crate::vx::Output
@call Command::new => crate::vx::cmd_new
@call Command::arg => crate::vx::cmd_arg
@call Command::args => crate::vx::cmd_args
@call Command::current_dir => crate::vx::cmd_dir
@call Command::output => crate::vx::cmd_output + __w
@call Command::status => crate::vx::cmd_status + __w
@call ExitStatus::success => crate::vx::status_success
@ghost vx when utf8_lossy
#[verifier::external_body]
pub fn utf8_lossy(v: &[u8]) -> String { unimplemented!() }
@end
@call String::from_utf8_lossy => crate::vx::utf8_lossy
@ghost vx when DynError
impl VInto<DynError> for &str {
    open spec fn vi(self, r: DynError) -> bool { r@ == self@ }
    #[verifier::external_body]
    fn vinto(self) -> (r: DynError) { unimplemented!() }
}
@end
@ghost sp when CommandV | commits_compared | switched
// A text git takes as an option.
pub open spec fn option_like(s: Seq<char>) -> bool { s.len() > 0 && s[0] == '-' }
pub open spec fn checks_out(c: Seq<Seq<char>>, r: Seq<char>) -> bool {
    &&& c.len() == 4 && c[0] == "git"@
    &&& {
        ||| c[1] == "checkout"@ && c[2] == r && c[3] == "--"@
        ||| c[1] == "reset"@ && c[2] == "--hard"@ && (c[3] == r || c[3] == "origin/"@ + r)
    }
}
pub open spec fn fetches(c: Seq<Seq<char>>, r: Seq<char>) -> bool { c.len() == 4 && c[0] == "git"@ && c[1] == "fetch"@ && c[2] == "origin"@ && c[3] == r }
// What may be run for a revision.
pub open spec fn fine(e: Event, p: Seq<char>, r: Seq<char>, net: bool) -> bool {
    !option_like(r) && e.dir == Some(p) && (checks_out(e.cmd, r) || net && fetches(e.cmd, r))
}
pub open spec fn extends(a: WorldV, b: WorldV) -> bool {
    a.before == b.before && a.log.len() <= b.log.len() && forall|i: int| 0 <= i < a.log.len() ==> b.log[i] == #[trigger] a.log[i]
}
// From `a` to `b` only such commands were run.
pub open spec fn does(a: WorldV, b: WorldV, p: Seq<char>, r: Seq<char>, net: bool) -> bool {
    extends(a, b) && forall|i: int| a.log.len() <= i < b.log.len() ==> fine(#[trigger] b.log[i], p, r, net)
}
pub open spec fn fetched(a: WorldV, b: WorldV, r: Seq<char>) -> bool { exists|i: int| a.log.len() <= i < b.log.len() && (#[trigger] b.log[i]).ok && fetches(b.log[i].cmd, r) }
// The last of the commands run in between checked out the revision.
pub open spec fn at_revision(a: WorldV, b: WorldV, r: Seq<char>) -> bool { b.log.len() > a.log.len() && b.log.last().ok && checks_out(b.log.last().cmd, r) }
// Checked out after the fetch, if one was asked for.
pub open spec fn switched(a: WorldV, b: WorldV, r: Seq<char>, net: bool) -> bool { at_revision(a, b, r) && (net ==> fetched(a, b, r)) }
// The functions of the files on the disk.
pub open spec fn read_version(f: Files, repo: Seq<char>, pat: Seq<char>, max: int, v: Exts, errs: bool) -> bool {
    exists|ps: Seq<PathB>| listing_of(f, repo, pat, max, ps) && #[trigger] gathered(f, PathStripping::RepoRelative, repo, ps, v, errs)
}
pub open spec fn pulls(p: CompareParams) -> bool { p.git_pull && !p.offline }
// The comparison of what was on the disk after the checkout of the old revision (`m`) and after that of the new one (`b`).
pub open spec fn compared_at(a: WorldV, m: WorldV, b: WorldV, repo: Seq<char>, old: Seq<char>, new: Seq<char>, p: CompareParams, q: FilterParams, pat: Seq<char>, max: int, d: Seq<ExtrinsicDiff>) -> bool {
    &&& extends(a, m) && extends(m, b)
    &&& switched(a, m, old, pulls(p)) && switched(m, b, new, pulls(p))
    &&& exists|o: Exts, n: Exts| #[trigger] read_version(disk(m), repo, pat, max, o, p.ignore_errors) && #[trigger] read_version(disk(b), repo, pat, max, n, p.ignore_errors) && pairs_of(d, o, n, p, q)
}
pub open spec fn commits_compared(a: WorldV, b: WorldV, repo: Seq<char>, old: Seq<char>, new: Seq<char>, p: CompareParams, q: FilterParams, pat: Seq<char>, max: int, d: Seq<ExtrinsicDiff>) -> bool {
    exists|m: WorldV| #[trigger] compared_at(a, m, b, repo, old, new, p, q, pat, max, d)
}
pub open spec fn does_either(a: WorldV, b: WorldV, p: Seq<char>, r: Seq<char>, s: Seq<char>, net: bool) -> bool {
    extends(a, b) && forall|i: int| a.log.len() <= i < b.log.len() ==> fine(#[trigger] b.log[i], p, r, net) || fine(b.log[i], p, s, net)
}
pub broadcast proof fn lemma_does(a: WorldV, b: WorldV, c: WorldV, p: Seq<char>, r: Seq<char>, net: bool)
    requires #[trigger] does(a, b, p, r, net), #[trigger] does(b, c, p, r, net)
    ensures does(a, c, p, r, net)
{
    assert forall|i: int| 0 <= i < a.log.len() implies c.log[i] == #[trigger] a.log[i] by { assert(b.log[i] == a.log[i]); }
    assert forall|i: int| a.log.len() <= i < c.log.len() implies fine(#[trigger] c.log[i], p, r, net) by { if i < b.log.len() { assert(b.log[i] == c.log[i]); } }
}
// One more command.
pub broadcast proof fn lemma_ran(a: WorldV, b: WorldV, k: CommandV, ok: bool, r: Seq<char>)
    requires #[trigger] logged(a, b, k, ok), !#[trigger] option_like(r), k.dir is Some
    ensures
        checks_out(k.line, r) ==> does(a, b, k.dir->0, r, true) && does(a, b, k.dir->0, r, false) && (ok ==> at_revision(a, b, r)),
        fetches(k.line, r) ==> does(a, b, k.dir->0, r, true) && (ok ==> fetched(a, b, r)),
{
    assert(b.log[a.log.len() as int] == b.log.last());
}
pub broadcast proof fn lemma_later(a: WorldV, b: WorldV, c: WorldV, p: Seq<char>, r: Seq<char>, net: bool)
    requires #[trigger] does(a, b, p, r, net), #[trigger] at_revision(b, c, r), b.log.len() >= a.log.len()
    ensures at_revision(a, c, r)
{}
pub broadcast group git_lemmas { lemma_does, lemma_ran, lemma_fetched, lemma_later, lemma_read, lemma_either }
pub broadcast proof fn lemma_read(f: Files, repo: Seq<char>, pat: Seq<char>, max: int, ps: Seq<PathB>, v: Exts, errs: bool)
    requires #[trigger] listing_of(f, repo, pat, max, ps), #[trigger] gathered(f, PathStripping::RepoRelative, repo, ps, v, errs)
    ensures read_version(f, repo, pat, max, v, errs)
{}
pub broadcast proof fn lemma_either(a: WorldV, b: WorldV, c: WorldV, p: Seq<char>, r: Seq<char>, s: Seq<char>, net: bool)
    requires #[trigger] does(a, b, p, r, net), #[trigger] does(b, c, p, s, net)
    ensures does_either(a, c, p, r, s, net)
{
    assert forall|i: int| 0 <= i < a.log.len() implies c.log[i] == #[trigger] a.log[i] by { assert(b.log[i] == a.log[i]); }
    assert forall|i: int| a.log.len() <= i < c.log.len() implies fine(#[trigger] c.log[i], p, r, net) || fine(c.log[i], p, s, net) by { if i < b.log.len() { assert(b.log[i] == c.log[i]); } }
}
pub broadcast proof fn lemma_fetched(a: WorldV, b: WorldV, c: WorldV, p: Seq<char>, r: Seq<char>, net: bool)
    requires #[trigger] fetched(a, b, r), #[trigger] does(b, c, p, r, net)
    ensures fetched(a, c, r)
{
    let i = choose|i: int| a.log.len() <= i < b.log.len() && (#[trigger] b.log[i]).ok && fetches(b.log[i].cmd, r);
    assert(c.log[i] == b.log[i]);
}
@end
@fn crate::CompareParams::should_pull
@ensures
        r == pulls(*self),
@fn crate::validate_refname
@ensures
        r is Ok <==> !option_like(refname@),
@fn crate::git_pull
@params __w: &mut crate::vx::World
@pass __w
@args p_path p_ref p_pull
@at start
    broadcast use git_lemmas;
    let ghost w0 = __w@;
    assert(does(w0, w0, p_path@, p_ref@, true) && does(w0, w0, p_path@, p_ref@, false));
@ensures
        does(old(__w)@, final(__w)@, p_path@, p_ref@, true),
        r is Ok ==> fetched(old(__w)@, final(__w)@, p_ref@),
@fn crate::git_reset
@fmt
@params __w: &mut crate::vx::World
@pass __w
@args p_path p_ref p_pull
@at start
    broadcast use git_lemmas;
    let ghost w0 = __w@;
    assert(does(w0, w0, p_path@, p_ref@, true) && does(w0, w0, p_path@, p_ref@, false));
@ensures
        does(old(__w)@, final(__w)@, p_path@, p_ref@, p_pull),
        r is Ok ==> switched(old(__w)@, final(__w)@, p_ref@, p_pull),
@fn crate::git_checkout
@params __w: &mut crate::vx::World
@pass __w
@args p_path p_ref p_pull
@at start
    broadcast use git_lemmas;
    let ghost w0 = __w@;
    assert(does(w0, w0, p_path@, p_ref@, true) && does(w0, w0, p_path@, p_ref@, false));
@ensures
        does(old(__w)@, final(__w)@, p_path@, p_ref@, p_pull),
        r is Ok ==> switched(old(__w)@, final(__w)@, p_ref@, p_pull),
@fn crate::compare_commits
@params __w: &mut crate::vx::World
@pass __w
@args p_repo p_old p_new p_params p_filter p_pattern p_max
@at start
    broadcast use git_lemmas;
    let ghost w0 = __w@;
    let ghost (g_repo, g_old, g_new, g_params, g_filter, g_pattern, g_max) = (p_repo@, p_old@, p_new@, *p_params, *p_filter, p_pattern@, p_max as int);
@at let olds
    let ghost w1 = __w@;
@at end
    proof {
        if __ret is Ok {
            assert(compared_at(w0, w1, __w@, g_repo, g_old, g_new, g_params, g_filter, g_pattern, g_max, __ret->Ok_0@));
        }
    }
@ensures
        text_occurs(".."@, p_pattern@) ==> r is Err && final(__w)@ == vstd::prelude::old(__w)@,
        does_either(vstd::prelude::old(__w)@, final(__w)@, p_repo@, p_old@, p_new@, pulls(*p_params)),
        r is Ok ==> commits_compared(vstd::prelude::old(__w)@, final(__w)@, p_repo@, p_old@, p_new@, *p_params, *p_filter, p_pattern@, p_max as int, r->Ok_0@),
@end
