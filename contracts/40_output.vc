@ghost vx when string_push | string_push_str
#[verifier::external_body]
pub fn string_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body]
pub fn string_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
@end
@call String::push => crate::vx::string_push
@call String::push_str => crate::vx::string_push_str
@ghost vx when string_new
#[verifier::external_body]
pub fn string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
@end
@call String::new => crate::vx::string_new
@ghost vx when FmtError
impl VInto<DynError> for FmtError {
    open spec fn vi(self, r: DynError) -> bool { true }
    #[verifier::external_body]
    fn vinto(self) -> (r: DynError) { unimplemented!() }
}
@end
@ghost vx when print_to
// What the program wrote to its standard output.
#[verifier::external_body]
pub struct Out { v: () }
impl Out { pub uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn print_to(s: String, o: &mut Out) ensures final(o)@ == old(o)@ + s@ { unimplemented!() }
@end
@call println => crate::vx::print_to + __out
@ghost vx
// `comfy_table::Table`: the style, the header and the rows; how they are drawn is left to the library.
#[verifier::external_body]
pub struct Table { v: () }
pub type Cells = Seq<Seq<char>>;
pub struct TableV { pub preset: Option<Seq<char>>, pub fit: bool, pub header: Cells, pub rows: Seq<Cells> }
impl Table { pub uninterp spec fn view(&self) -> TableV; }
pub enum ColumnConstraint { ContentWidth, Hidden }
pub const ASCII_MARKDOWN: &'static str = "||--|||             ";
pub uninterp spec fn drawn(t: TableV) -> Seq<char>;
impl VDisplay for Table { open spec fn shown(&self) -> Seq<char> { drawn(self@) } #[verifier::external_body] fn vdisplay(&self) -> (r: String) { unimplemented!() } }
pub trait VRow { spec fn cells(&self) -> Cells; }
impl VRow for Vec<&str> { open spec fn cells(&self) -> Cells { Seq::new(self@.len(), |i: int| self@[i]@) } }
impl VRow for Vec<String> { open spec fn cells(&self) -> Cells { Seq::new(self@.len(), |i: int| self@[i]@) } }
impl VRow for &Vec<String> { open spec fn cells(&self) -> Cells { Seq::new(self@.len(), |i: int| self@[i]@) } }
impl<const N: usize> VRow for [&str; N] { open spec fn cells(&self) -> Cells { Seq::new(N as nat, |i: int| self@[i]@) } }
impl<const N: usize> VRow for [String; N] { open spec fn cells(&self) -> Cells { Seq::new(N as nat, |i: int| self@[i]@) } }
#[verifier::external_body]
pub fn table_new() -> (r: Table) ensures r@ == (TableV { preset: None, fit: false, header: Seq::empty(), rows: Seq::empty() }) { unimplemented!() }
#[verifier::external_body]
pub fn table_constraints<'a>(t: &'a mut Table, c: Vec<ColumnConstraint>) -> (r: &'a mut Table)
    ensures (*r)@ == (TableV { fit: true, ..old(t)@ }), *final(t) == *final(r)
{ unimplemented!() }
#[verifier::external_body]
pub fn table_preset<'a>(t: &'a mut Table, p: &str) -> (r: &'a mut Table)
    ensures (*r)@ == (TableV { preset: Some(p@), ..old(t)@ }), *final(t) == *final(r)
{ unimplemented!() }
#[verifier::external_body]
pub fn table_header<'a, R: VRow>(t: &'a mut Table, h: R) -> (r: &'a mut Table)
    ensures (*r)@ == (TableV { header: h.cells(), ..old(t)@ }), *final(t) == *final(r)
{ unimplemented!() }
#[verifier::external_body]
pub fn table_row<'a, R: VRow>(t: &'a mut Table, h: R) -> (r: &'a mut Table)
    ensures (*r)@ == (TableV { rows: old(t)@.rows.push(h.cells()), ..old(t)@ }), *final(t) == *final(r)
{ unimplemented!() }
@end
@type comfy_table::Table => crate::vx::Table
@type Table => crate::vx::Table
@type comfy_table::ColumnConstraint => crate::vx::ColumnConstraint
@type comfy_table::presets::ASCII_MARKDOWN => crate::vx::ASCII_MARKDOWN
@call Table::new => crate::vx::table_new
@call Table::set_constraints => crate::vx::table_constraints
@call Table::load_preset => crate::vx::table_preset
@call Table::set_header => crate::vx::table_header
@call Table::add_row => crate::vx::table_row
@ghost vx when regex_replace_all | path_shown
// Every match of the pattern replaced.
pub uninterp spec fn regex_erased(p: Seq<char>, s: Seq<char>, by: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn regex_replace_all(x: &Regex, s: &str, by: &str) -> (r: String) ensures r@ == regex_erased(x@, s@, by@) { unimplemented!() }
@end
@call Regex::replace_all => crate::vx::regex_replace_all
@ghost sp when term_text | scope_text
// The text of an equation: what `Display::fmt` writes (its contract), as a function of the equation.
pub uninterp spec fn term_text(t: Term<u128>) -> Seq<char>;
impl VDisplay for crate::term::Term<u128> { open spec fn shown(&self) -> Seq<char> { term_text(*self) } #[verifier::external_body] fn vdisplay(&self) -> (r: String) { unimplemented!() } }
// The `Debug` text of a scope.
pub uninterp spec fn debug_text(s: SimpleScope) -> Seq<char>;
impl VFmt for crate::scope::Scope<Term<u128>> { open spec fn fmt_as(&self, sp: Seq<char>) -> Seq<char> { debug_text(*self) } }
impl VFmt for &crate::scope::Scope<Term<u128>> { open spec fn fmt_as(&self, sp: Seq<char>) -> Seq<char> { debug_text(**self) } }
@end
@ghost sp
// Free of the characters that structure a CSV file.
pub open spec fn one_cell(s: Seq<char>) -> bool { !s.contains(',') && !s.contains('\n') }
// Names in an equation without a separator.
pub open spec fn plain_names(t: Term<u128>) -> bool
    decreases t
{
    match t { Term::Var(v) => one_cell(v.0@), Term::Add(a, b) => plain_names(*a) && plain_names(*b), Term::Mul(a, b) => plain_names(*a) && plain_names(*b), _ => true }
}
// Numbers are printed without separators.
pub axiom fn axiom_number_cells(x: f64, n: int, sp: Seq<char>)
    ensures one_cell(fshow(x, sp)), one_cell(ishow(n, sp)), one_cell(dec(n));
pub broadcast proof fn lemma_cell_join(a: Seq<char>, b: Seq<char>)
    requires one_cell(a), one_cell(b)
    ensures #[trigger] one_cell(a + b)
{
    assert forall|c: char| #[trigger] (a + b).contains(c) implies a.contains(c) || b.contains(c) by {
        let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == c;
        if i < a.len() { assert(a[i] == c); } else { assert(b[i - a.len()] == c); }
    }
}
@end
@ghost sp
pub open spec fn opt_value(u: Dimension, v: Option<u128>) -> Seq<char> { match v { Some(x) => value_text(u, x), None => Seq::empty() } }
pub open spec fn opt_term(t: Option<Term<u128>>) -> Seq<char> { match t { Some(t) => term_text(t), None => "-"@ } }
// The text of the change of one result.
pub open spec fn painted(c: AnsiColor, s: Seq<char>, plain: bool) -> Seq<char> {
    if plain { s } else {
        match c {
            AnsiColor::White => "\x1b[37m"@ + s + "\x1b[0m"@,
            AnsiColor::Red => "\x1b[31m"@ + s + "\x1b[0m"@,
            AnsiColor::Green => "\x1b[32m"@ + s + "\x1b[0m"@,
        }
    }
}
pub open spec fn change_text(p: f64, k: RelativeChange, plain: bool) -> Seq<char> {
    match k {
        RelativeChange::Unchanged => "Unchanged"@,
        RelativeChange::Added => painted(AnsiColor::Red, "Added"@, plain),
        RelativeChange::Removed => painted(AnsiColor::Green, "Removed"@, plain),
        RelativeChange::Changed => painted(if flt(p, fbits(0)) { AnsiColor::Green } else if flt(fbits(0), p) { AnsiColor::Red } else { AnsiColor::White }, fshow(p, "+5.2"@), plain),
    }
}
// The five columns every result has.
pub open spec fn csv_cells(x: ExtrinsicDiff, c: TermChange, u: Dimension, plain: bool) -> Seq<char> {
    x.file@ + ","@ + x.name@ + ","@ + opt_value(u, c.old_v) + ","@ + opt_value(u, c.new_v) + ","@ + change_text(c.percent, c.change, plain)
}
pub open spec fn csv_terms(c: TermChange) -> Seq<char> { ","@ + opt_term(c.old) + ","@ + opt_term(c.new) + ","@ + replaced(debug_text(c.scope), ',', " "@) }
pub open spec fn csv_row(x: ExtrinsicDiff, c: TermChange, u: Dimension, terms: bool, plain: bool) -> Seq<char> {
    if terms { csv_cells(x, c, u, plain) + csv_terms(c) } else { csv_cells(x, c, u, plain) }
}
pub open spec fn csv_header(terms: bool) -> Seq<char> {
    if terms { "File,Extrinsic,Old,New,Change Percent"@ + ",Old Weight Term,New Weight Term,Used variables"@ } else { "File,Extrinsic,Old,New,Change Percent"@ }
}
// One line per result that is not a failure, in the order of the list.
pub open spec fn csv_lines(s: Seq<ExtrinsicDiff>, u: Dimension, terms: bool, plain: bool) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let r = csv_lines(s.drop_last(), u, terms, plain);
        match change_of(s.last().change) { Some(c) => r.push(csv_row(s.last(), c, u, terms, plain)), None => r }
    }
}
// Lines of a file, each with its line end.
pub open spec fn lines_text(s: Seq<Seq<char>>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { lines_text(s.drop_last()) + s.last() + "\n"@ }
}
// Texts are joined in any grouping.
pub broadcast proof fn lemma_join_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] (a + (b + c)) == a + b + c
{ assert(a + (b + c) =~= a + b + c); }
pub broadcast proof fn lemma_join_none(a: Seq<char>)
    ensures #[trigger] (Seq::<char>::empty() + a) == a
{ assert(Seq::<char>::empty() + a =~= a); }
pub broadcast proof fn lemma_join_end(a: Seq<char>)
    ensures #[trigger] a.push('\n') == a + "\n"@
{ reveal_strlit("\n"); assert(a.push('\n') =~= a + "\n"@); }
pub broadcast group text_joined { lemma_join_assoc, lemma_join_none, lemma_join_end }
pub proof fn lemma_lines_push(l: Seq<Seq<char>>, row: Seq<char>)
    ensures lines_text(l.push(row)) == lines_text(l) + row + "\n"@
{ assert(l.push(row).drop_last() =~= l); }
pub proof fn lemma_csv_start(s: Seq<ExtrinsicDiff>, u: Dimension, terms: bool, plain: bool)
    ensures lines_text(seq![csv_header(terms)] + csv_lines(s.take(0), u, terms, plain)) == csv_header(terms) + "\n"@
{
    broadcast use text_joined;
    let l = seq![csv_header(terms)] + csv_lines(s.take(0), u, terms, plain);
    assert(l =~= Seq::<Seq<char>>::empty().push(csv_header(terms)));
    lemma_lines_push(Seq::<Seq<char>>::empty(), csv_header(terms));
}
pub proof fn lemma_csv_step(s: Seq<ExtrinsicDiff>, i: int, u: Dimension, terms: bool, plain: bool)
    requires 0 <= i < s.len()
    ensures ({
        let l = lines_text(seq![csv_header(terms)] + csv_lines(s.take(i), u, terms, plain));
        lines_text(seq![csv_header(terms)] + csv_lines(s.take(i + 1), u, terms, plain)) == (match change_of(s[i].change) { Some(c) => l + csv_row(s[i], c, u, terms, plain) + "\n"@, None => l })
    })
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(i + 1).last() == s[i]);
    match change_of(s[i].change) {
        Some(c) => {
            let l = seq![csv_header(terms)] + csv_lines(s.take(i), u, terms, plain);
            assert(seq![csv_header(terms)] + csv_lines(s.take(i + 1), u, terms, plain) =~= l.push(csv_row(s[i], c, u, terms, plain)));
            lemma_lines_push(l, csv_row(s[i], c, u, terms, plain));
        }
        None => {}
    }
}
pub open spec fn csv_text(s: Seq<ExtrinsicDiff>, u: Dimension, terms: bool, plain: bool) -> Seq<char> {
    if s.len() == 0 { Seq::empty() } else { lines_text(seq![csv_header(terms)] + csv_lines(s, u, terms, plain)) }
}
// The columns of a line and of the header, and a line as its columns with a separator in between.
pub open spec fn csv_columns(x: ExtrinsicDiff, c: TermChange, u: Dimension, terms: bool, plain: bool) -> Seq<Seq<char>> {
    let r = seq![x.file@, x.name@, opt_value(u, c.old_v), opt_value(u, c.new_v), change_text(c.percent, c.change, plain)];
    if terms { r + seq![opt_term(c.old), opt_term(c.new), replaced(debug_text(c.scope), ',', " "@)] } else { r }
}
pub open spec fn csv_titles(terms: bool) -> Seq<Seq<char>> {
    let r = seq!["File"@, "Extrinsic"@, "Old"@, "New"@, "Change Percent"@];
    if terms { r + seq!["Old Weight Term"@, "New Weight Term"@, "Used variables"@] } else { r }
}
pub open spec fn separated(s: Seq<Seq<char>>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { separated(s.drop_last()) + ","@ + s.last() }
}
pub open spec fn one_line(s: Seq<char>) -> bool { !s.contains('\n') }
pub open spec fn all_cells(s: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < s.len() ==> one_cell(#[trigger] s[i]) }
pub open spec fn plain_result(x: ExtrinsicDiff, c: TermChange) -> bool {
    &&& one_cell(x.file@) && one_cell(x.name@)
    &&& c.old is Some ==> plain_names(c.old->0)
    &&& c.new is Some ==> plain_names(c.new->0)
}
// The text of an equation is the one its contract describes (`Display::fmt`); the `Debug` text of a scope keeps line ends escaped.
pub axiom fn axiom_term_cell(t: Term<u128>)
    ensures plain_names(t) ==> one_cell(term_text(t));
pub axiom fn axiom_debug_line(s: SimpleScope)
    ensures one_line(debug_text(s));
pub proof fn lemma_replaced_cell(s: Seq<char>)
    requires one_line(s)
    ensures one_cell(replaced(s, ',', " "@))
    decreases s.len()
{
    if s.len() == 0 { assert(!s.contains(',')); } else {
        let t = s.drop_last();
        assert(one_line(t)) by { if t.contains('\n') { let i = choose|i: int| 0 <= i < t.len() && t[i] == '\n'; assert(s[i] == '\n'); } }
        lemma_replaced_cell(t);
        let w = if s.last() == ',' { " "@ } else { seq![s.last()] };
        assert(one_cell(w)) by { reveal_strlit(" "); assert(s[s.len() - 1] == s.last()); }
        lemma_cell_join(replaced(t, ',', " "@), w);
    }
}
pub proof fn lemma_value_cell(u: Dimension, v: u128)
    ensures one_cell(value_text(u, v))
{
    broadcast use lemma_cell_join;
    reveal_strlit("T"); reveal_strlit("G"); reveal_strlit("M"); reveal_strlit("K");
    reveal_strlit("s"); reveal_strlit("ms"); reveal_strlit("us"); reveal_strlit("ns"); reveal_strlit("ps");
    reveal_strlit("GiB"); reveal_strlit("MiB"); reveal_strlit("KiB"); reveal_strlit("B");
    axiom_number_cells(fbits(0), v as int, ".2"@);
    assert forall|x: f64| #[trigger] one_cell(fshow(x, ".2"@)) by { axiom_number_cells(x, 0, ".2"@); }
}
pub proof fn lemma_change_cell(p: f64, k: RelativeChange, plain: bool)
    ensures one_cell(change_text(p, k, plain))
{
    broadcast use lemma_cell_join;
    reveal_strlit("\x1b[37m"); reveal_strlit("\x1b[31m"); reveal_strlit("\x1b[32m"); reveal_strlit("\x1b[0m");
    reveal_strlit("Unchanged"); reveal_strlit("Added"); reveal_strlit("Removed");
    axiom_number_cells(p, 0, "+5.2"@);
}
pub proof fn lemma_row_cells(x: ExtrinsicDiff, c: TermChange, u: Dimension, terms: bool, plain: bool)
    requires plain_result(x, c)
    ensures
        all_cells(csv_columns(x, c, u, terms, plain)),
        csv_columns(x, c, u, terms, plain).len() == csv_titles(terms).len(),
        csv_row(x, c, u, terms, plain) == separated(csv_columns(x, c, u, terms, plain)),
{
    broadcast use text_joined;
    match c.old_v { Some(v) => { lemma_value_cell(u, v); } None => {} }
    match c.new_v { Some(v) => { lemma_value_cell(u, v); } None => {} }
    lemma_change_cell(c.percent, c.change, plain);
    reveal_strlit("-");
    match c.old { Some(t) => { axiom_term_cell(t); } None => {} }
    match c.new { Some(t) => { axiom_term_cell(t); } None => {} }
    axiom_debug_line(c.scope);
    lemma_replaced_cell(debug_text(c.scope));
    let r = csv_columns(x, c, u, terms, plain);
    lemma_separated(r);
    let five = seq![x.file@, x.name@, opt_value(u, c.old_v), opt_value(u, c.new_v), change_text(c.percent, c.change, plain)];
    lemma_separated(five);
}
// A list of five or eight columns written out.
pub proof fn lemma_separated(r: Seq<Seq<char>>)
    ensures
        r.len() == 5 ==> separated(r) == r[0] + ","@ + r[1] + ","@ + r[2] + ","@ + r[3] + ","@ + r[4],
        r.len() == 8 ==> separated(r) == r[0] + ","@ + r[1] + ","@ + r[2] + ","@ + r[3] + ","@ + r[4] + ","@ + r[5] + ","@ + r[6] + ","@ + r[7],
{
    reveal_with_fuel(separated, 9);
}
pub proof fn lemma_head_cells(terms: bool)
    ensures
        all_cells(csv_titles(terms)),
        csv_header(terms) == separated(csv_titles(terms)),
{
    reveal_strlit("File"); reveal_strlit("Extrinsic"); reveal_strlit("Old"); reveal_strlit("New"); reveal_strlit("Change Percent"); reveal_strlit(",");
    reveal_strlit("Old Weight Term"); reveal_strlit("New Weight Term"); reveal_strlit("Used variables");
    reveal_strlit("File,Extrinsic,Old,New,Change Percent");
    reveal_strlit(",Old Weight Term,New Weight Term,Used variables");
    lemma_separated(csv_titles(terms));
    assert(csv_header(terms) =~= separated(csv_titles(terms)));
}
pub proof fn lemma_cut_none(s: Seq<char>)
    requires !s.contains(',')
    ensures cut_at(s, ',') == seq![s]
    decreases s.len()
{
    if s.len() > 0 {
        assert(s[s.len() - 1] == s.last());
        let t = s.drop_last();
        assert(!t.contains(',')) by { if t.contains(',') { let i = choose|i: int| 0 <= i < t.len() && t[i] == ','; assert(s[i] == ','); } }
        lemma_cut_none(t);
        assert(t.push(s.last()) =~= s);
        assert(cut_at(s, ',') =~= seq![s]);
    }
}
pub proof fn lemma_cut_join(a: Seq<char>, b: Seq<char>)
    requires !b.contains(',')
    ensures cut_at(a + ","@ + b, ',') == cut_at(a, ',').push(b)
    decreases b.len()
{
    reveal_strlit(",");
    let s = a + ","@ + b;
    if b.len() == 0 {
        assert(s =~= a.push(','));
        assert(s.drop_last() =~= a);
        assert(b =~= Seq::empty());
        assert(cut_at(s, ',') =~= cut_at(a, ',').push(b));
    } else {
        let t = b.drop_last();
        assert(!t.contains(',')) by { if t.contains(',') { let i = choose|i: int| 0 <= i < t.len() && t[i] == ','; assert(b[i] == ','); } }
        lemma_cut_join(a, t);
        assert(s.drop_last() =~= a + ","@ + t);
        assert(b[b.len() - 1] == b.last() && s.last() == b.last());
        assert(t.push(b.last()) =~= b);
        assert(cut_at(s, ',') =~= cut_at(a, ',').push(b));
    }
}
// Reading a line back at its separators gives exactly its columns.
pub proof fn lemma_cut_separated(r: Seq<Seq<char>>)
    requires r.len() > 0, all_cells(r)
    ensures cut_at(separated(r), ',') == r
    decreases r.len()
{
    if r.len() == 1 { assert(one_cell(r[0])); lemma_cut_none(r[0]); assert(seq![r[0]] =~= r); } else {
        let t = r.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies one_cell(#[trigger] t[i]) by { assert(t[i] == r[i]); }
        lemma_cut_separated(t);
        assert(one_cell(r[r.len() - 1]));
        lemma_cut_join(separated(t), r.last());
        assert(t.push(r.last()) =~= r);
    }
}
// C16: every line has the columns of the header, however the options are set.
pub proof fn lemma_csv_columns(x: ExtrinsicDiff, c: TermChange, u: Dimension, terms: bool, plain: bool)
    requires plain_result(x, c)
    ensures
        cut_at(csv_header(terms), ',') == csv_titles(terms),
        cut_at(csv_row(x, c, u, terms, plain), ',') == csv_columns(x, c, u, terms, plain),
        cut_at(csv_row(x, c, u, terms, plain), ',').len() == cut_at(csv_header(terms), ',').len(),
{
    lemma_row_cells(x, c, u, terms, plain);
    lemma_head_cells(terms);
    lemma_cut_separated(csv_columns(x, c, u, terms, plain));
    lemma_cut_separated(csv_titles(terms));
}
pub open spec fn path_shown(p: Option<String>, f: Seq<char>) -> Seq<char> { match p { Some(p) => regex_erased(p@, f, Seq::empty()), None => f } }
pub open spec fn failed_row(x: ExtrinsicDiff, p: Option<String>) -> Cells { seq![path_shown(p, x.file@), x.name@, "-"@, "-"@, "ERROR"@] }
pub open spec fn value_row(x: ExtrinsicDiff, c: TermChange, p: Option<String>, u: Dimension, terms: bool, plain: bool) -> Cells {
    let r = seq![path_shown(p, x.file@), x.name@, opt_value(u, c.old_v), opt_value(u, c.new_v), change_text(c.percent, c.change, plain)];
    if terms { r + seq![opt_term(c.old), opt_term(c.new), debug_text(c.scope)] } else { r }
}
pub open spec fn failed_rows(s: Seq<ExtrinsicDiff>, p: Option<String>) -> Seq<Cells>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let r = failed_rows(s.drop_last(), p);
        if s.last().change is Failed { r.push(failed_row(s.last(), p)) } else { r }
    }
}
pub open spec fn value_rows(s: Seq<ExtrinsicDiff>, p: Option<String>, u: Dimension, terms: bool, plain: bool) -> Seq<Cells>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let r = value_rows(s.drop_last(), p, u, terms, plain);
        match change_of(s.last().change) { Some(c) => r.push(value_row(s.last(), c, p, u, terms, plain)), None => r }
    }
}
pub open spec fn failures(s: Seq<ExtrinsicDiff>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { failures(s.drop_last()) + (if s.last().change is Failed { 1nat } else { 0nat }) }
}
// C16: one row per result, each with the columns of the header, and one line per result that is no failure.
pub proof fn lemma_one_row_each(s: Seq<ExtrinsicDiff>, p: Option<String>, u: Dimension, terms: bool, plain: bool)
    ensures
        failed_rows(s, p).len() == failures(s),
        value_rows(s, p, u, terms, plain).len() == s.len() - failures(s),
        csv_lines(s, u, terms, plain).len() == s.len() - failures(s),
        failed_rows(s, p).len() + value_rows(s, p, u, terms, plain).len() == s.len(),
        forall|i: int| 0 <= i < failed_rows(s, p).len() ==> (#[trigger] failed_rows(s, p)[i]).len() == 5,
        forall|i: int| 0 <= i < value_rows(s, p, u, terms, plain).len() ==> (#[trigger] value_rows(s, p, u, terms, plain)[i]).len() == table_head(terms).len(),
    decreases s.len()
{
    if s.len() > 0 { lemma_one_row_each(s.drop_last(), p, u, terms, plain); }
}
pub open spec fn table_head(terms: bool) -> Cells {
    let h = seq!["File"@, "Extrinsic"@, "Old"@, "New"@, "Change [%]"@];
    if terms { h + seq!["Old Weight Term"@, "New Weight Term"@, "Used variables"@] } else { h }
}
// Failures first, then the values.
pub open spec fn table_of(s: Seq<ExtrinsicDiff>, f: FormatParams, u: Dimension, markdown: bool) -> TableV {
    TableV {
        preset: if markdown { Some(ASCII_MARKDOWN@) } else { None },
        fit: true,
        header: table_head(f.print_terms),
        rows: failed_rows(s, f.strip_path_prefix) + value_rows(s, f.strip_path_prefix, u, f.print_terms, f.no_color),
    }
}
pub open spec fn none_found(s: Seq<ExtrinsicDiff>, verbose: bool) -> Seq<char> { if s.len() == 0 && !verbose { "No changes found."@ + "\n"@ } else { Seq::empty() } }
// The output for a list of results; `None` for a format that is not supported.
pub open spec fn rendered(s: Seq<ExtrinsicDiff>, f: FormatParams, u: Dimension) -> Option<Seq<char>> {
    match f.format {
        OutputFormat::Human => Some(if s.len() == 0 { Seq::empty() } else { drawn(table_of(s, f, u, false)) }),
        OutputFormat::Markdown => Some(if s.len() == 0 { Seq::empty() } else { drawn(table_of(s, f, u, true)) }),
        OutputFormat::CSV => Some(csv_text(s, u, f.print_terms, f.no_color)),
        _ => None,
    }
}
@end
@fn crate::ExtrinsicDiff::term
@ensures
        match r { Some(c) => change_of(self.change) == Some(*c), None => change_of(self.change) is None },
@fn crate::ExtrinsicDiff::error
@ensures
        r is Some <==> self.change is Failed,
@fn cli::AnsiColor::paint
@fmt
@ensures
        r@ == painted(*self, s@, false),
@fn cli::maybe_color
@ensures
        exists|s: String| #[trigger] msg.vi(s) && r@ == painted(clr, s@, no_color),
@fn cli::color_percent
@fmt
@ensures
        r@ == change_text(p, *change, no_color),
@fn cli::FormatParams::filter_path
@requires
        self.strip_path_prefix is Some ==> regex_valid(self.strip_path_prefix->0@),
@ensures
        r@ == path_shown(self.strip_path_prefix, path@),
@at start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@fn cli::print_changes_csv
@params __out: &mut crate::vx::Out
@pass __out
@args per_extrinsic verbose format unit
@fmt
@at start
            let ghost results = per_extrinsic@;
            let ghost terms = format.print_terms;
            let ghost plain = format.no_color;
            proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
            broadcast use text_joined;
@ensures
        r is Ok,
        r->Ok_0@ == csv_text(per_extrinsic@, unit, format.print_terms, format.no_color),
        final(__out)@ == old(__out)@ + none_found(per_extrinsic@, verbose),
@loop 0 inv
            invariant
                output@ == lines_text(seq![csv_header(terms)] + csv_lines(results.take($i as int), unit, terms, plain)),
@loop 0 before
            proof { lemma_csv_start(results, unit, terms, plain); }
@loop 0 start
            proof { lemma_csv_step(results, $i as int, unit, terms, plain); }
@loop 0 after
            proof { assert(results.take($n as int) =~= results); }
@fn cli::print_changes_human
@params __out: &mut crate::vx::Out
@pass __out
@args per_extrinsic verbose format unit markdown
@fmt
@requires
        format.strip_path_prefix is Some ==> regex_valid(format.strip_path_prefix->0@),
@at start
            let ghost results = per_extrinsic@;
            let ghost given = format;
            proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@ensures
        r is Ok,
        r->Ok_0@ == (if per_extrinsic@.len() == 0 { Seq::empty() } else { drawn(table_of(per_extrinsic@, format, unit, markdown)) }),
        final(__out)@ == old(__out)@ + none_found(per_extrinsic@, verbose),
@loop 0 inv
            invariant
                table@.preset == table_of(results, given, unit, markdown).preset,
                table@.fit,
                table@.header =~= table_head(given.print_terms),
                table@.rows =~= failed_rows(results.take($i as int), given.strip_path_prefix),
@loop 0 start
            proof {
                assert(results.take($i + 1).drop_last() =~= results.take($i as int));
                assert(results.take($i + 1).last() == results[$i as int]);
            }
@loop 0 end
            proof {
                if results[$i as int].change is Failed { assert(table@.rows.last() =~= failed_row(results[$i as int], given.strip_path_prefix)); }
            }
@loop 0 after
            proof { assert(results.take($n as int) =~= results); }
@loop 1 inv
            invariant
                table@.preset == table_of(results, given, unit, markdown).preset,
                table@.fit,
                table@.header =~= table_head(given.print_terms),
                table@.rows =~= failed_rows(results, given.strip_path_prefix) + value_rows(results.take($i as int), given.strip_path_prefix, unit, given.print_terms, given.no_color),
@loop 1 start
            proof {
                assert(results.take($i + 1).drop_last() =~= results.take($i as int));
                assert(results.take($i + 1).last() == results[$i as int]);
            }
@loop 1 end
            proof {
                match change_of(results[$i as int].change) {
                    Some(c) => { assert(table@.rows.last() =~= value_row(results[$i as int], c, given.strip_path_prefix, unit, given.print_terms, given.no_color)); }
                    None => {}
                }
            }
@loop 1 after
            proof { assert(results.take($n as int) =~= results); }
@fn cli::print_changes
@params __out: &mut crate::vx::Out
@pass __out
@args per_extrinsic verbose format unit
@fmt
@requires
        format.strip_path_prefix is Some ==> regex_valid(format.strip_path_prefix->0@),
@ensures
        r is Ok <==> rendered(per_extrinsic@, format, unit) is Some,
        r is Ok ==> shown_in(per_extrinsic@, format, unit, verbose, old(__out)@, final(__out)@),
        r is Err ==> final(__out)@ == old(__out)@,
@at start
            broadcast use text_joined;
@fn cli::main for C16
@params __w: &mut crate::vx::World, __out: &mut crate::vx::Out
@pass __w, __out
@requires
        usable(given()),
@ensures
        r is Ok ==> (match given().subcommand {
            SubCommand::Compare(CompareCmd::Files(c)) => exists|l: Seq<ExtrinsicDiff>| #[trigger] shown_in(l, c.format, c.params.unit, given().verbose, old(__out)@, final(__out)@),
            SubCommand::Compare(CompareCmd::Commits(c)) => exists|l: Seq<ExtrinsicDiff>| #[trigger] shown_in(l, c.format, c.params.unit, given().verbose, old(__out)@, final(__out)@),
            _ => true,
        }),
@end
@ghost sp
// The command line.
pub uninterp spec fn given() -> MainCmd;
#[verifier::external_body]
pub fn given_command() -> (r: MainCmd) ensures r == given() { unimplemented!() }
pub open spec fn usable(c: MainCmd) -> bool {
    match c.subcommand {
        SubCommand::Compare(CompareCmd::Files(c)) => c.format.strip_path_prefix is Some ==> regex_valid(c.format.strip_path_prefix->0@),
        SubCommand::Compare(CompareCmd::Commits(c)) => c.format.strip_path_prefix is Some ==> regex_valid(c.format.strip_path_prefix->0@),
        _ => true,
    }
}
pub open spec fn shown_in(l: Seq<ExtrinsicDiff>, f: FormatParams, u: Dimension, verbose: bool, a: Seq<char>, b: Seq<char>) -> bool {
    rendered(l, f, u) is Some && b == a + none_found(l, verbose) + rendered(l, f, u)->0 + "\n"@
}
@end
@call Parser::parse => crate::sp::given_command
@ghost vx
#[verifier::external_body]
pub struct LogEnv { v: () }
#[verifier::external_body]
pub fn log_env() -> LogEnv { unimplemented!() }
impl VDefault for LogEnv { open spec fn vd(r: Self) -> bool { true } #[verifier::external_body] fn vdefault() -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub fn log_filter(e: LogEnv, a: &str, b: &str) -> LogEnv { unimplemented!() }
#[verifier::external_body]
pub fn log_init(e: LogEnv) { unimplemented!() }
pub const LOG_FILTER: &'static str = "RUST_LOG";
@end
@call Env::default => crate::vx::log_env
@call Default::default[Env] => crate::vx::log_env
@call Env::filter_or => crate::vx::log_filter
@call env_logger::init_from_env => crate::vx::log_init
@type env_logger::DEFAULT_FILTER_ENV => crate::vx::LOG_FILTER
@ghost vx when vec_reverse
pub fn vec_reverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() {
    let mut r: Vec<T> = Vec::new();
    let ghost a = v@;
    let n = v.len();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, n == a.len(), r@.len() == i, v@ == a.take(n - i), forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == a[n - 1 - j],
        decreases n - i,
    {
        match v.pop() { Some(x) => { r.push(x); } None => {} }
        i += 1;
        assert(v@ =~= a.take(n - i));
    }
    assert(r@ =~= a.reverse());
    *v = r;
}
@end
@call slice::reverse => crate::vx::vec_reverse
