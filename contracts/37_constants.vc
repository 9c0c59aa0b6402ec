@ghost sp
// A sum or product of numbers and names, as a database cost is declared.
pub open spec fn dbden(e: Expr, n: Names) -> Option<nat>
    decreases e
{
    match e {
        Expr::Binary(b) => match b.op { BinOp::Mul(_) => times(dbden(*b.left, n), dbden(*b.right, n)), BinOp::Add(_) => plus(dbden(*b.left, n), dbden(*b.right, n)), _ => None },
        Expr::Lit(l) => lit_den(l.lit),
        Expr::Path(p) => Some(n(path_text(p.path, "::"@))),
        _ => None,
    }
}
// Every such cost is accepted whose numbers fit.
pub open spec fn cost_fits(e: Expr) -> bool
    decreases e
{
    match e {
        Expr::Binary(b) => (b.op is Mul || b.op is Add) && cost_fits(*b.left) && cost_fits(*b.right),
        Expr::Lit(l) => lit_fits(l.lit),
        Expr::Path(p) => true,
        _ => false,
    }
}
pub open spec fn cmeans(t: Term<u128>, e: Expr) -> bool { forall|n: Names| dbden(e, n) == Some(#[trigger] sval(t, n)) }
pub open spec fn cstep(t: Term<u128>, e: Expr) -> bool {
    match e {
        Expr::Binary(b) => match b.op {
            BinOp::Mul(_) => t is Mul && (cmeans(*t->Mul_0, *b.left) && cmeans(*t->Mul_1, *b.right) || cmeans(*t->Mul_1, *b.left) && cmeans(*t->Mul_0, *b.right)),
            BinOp::Add(_) => t is Add && (cmeans(*t->Add_0, *b.left) && cmeans(*t->Add_1, *b.right) || cmeans(*t->Add_1, *b.left) && cmeans(*t->Add_0, *b.right)),
            _ => false,
        },
        Expr::Lit(l) => match lit_den(l.lit) { Some(v) => is_num(t, v), None => false },
        Expr::Path(p) => names_var(t, path_text(p.path, "::"@)),
        _ => false,
    }
}
pub proof fn lemma_cstep(t: Term<u128>, e: Expr)
    requires cstep(t, e)
    ensures cmeans(t, e)
{
    assert forall|n: Names| dbden(e, n) == Some(#[trigger] sval(t, n)) by {
        match e {
            Expr::Binary(b) => {
                let (x, y) = (dbden(*b.left, n), dbden(*b.right, n));
                if t is Mul {
                    let (l, r) = (sval(*t->Mul_0, n), sval(*t->Mul_1, n));
                    assert(l * r == r * l) by (nonlinear_arith);
                    assert(sval(t, n) == l * r);
                }
                if t is Add { assert(sval(t, n) == sval(*t->Add_0, n) + sval(*t->Add_1, n)); }
            }
            _ => {}
        }
    }
}
pub open spec fn member_text(m: Member) -> Seq<char> { match m { Member::Named(i) => i@, _ => Seq::<char>::empty() } }
pub open spec fn type_text(t: Type) -> Option<Seq<char>> { match t { Type::Path(p) => Some(path_text(p.path, Seq::<char>::empty())), _ => None } }
// The equation is the value of the field of this name.
pub open spec fn of_field(t: Term<u128>, s: ExprStruct, name: Seq<char>) -> bool {
    exists|i: int| 0 <= i < s.fields@.len() && member_text((#[trigger] s.fields@[i]).member) == name && cmeans(t, s.fields@[i].expr)
}
pub open spec fn field_is(f: Option<&FieldValue>, s: ExprStruct, name: Seq<char>) -> bool {
    match f { Some(f) => member_text(f.member) == name && exists|i: int| 0 <= i < s.fields@.len() && #[trigger] s.fields@[i] == *f, None => true }
}
pub open spec fn costs_of(s: ExprStruct, r: RWs) -> bool {
    path_text(s.path, Seq::<char>::empty()) == "RuntimeDbWeight"@ && s.fields@.len() == 2 && of_field(r.read, s, "read"@) && of_field(r.write, s, "write"@)
}
pub open spec fn db_const(c: ItemConst, w: Weights) -> bool {
    &&& c.ident@ == (match w.db { Db::Rocks => "RocksDbWeight"@, Db::Parity => "ParityDbWeight"@ })
    &&& type_text(*c.ty) == Some("RuntimeDbWeight"@)
    &&& (match *c.expr { Expr::Struct(s) => costs_of(s, w.weights), _ => false })
}
pub open spec fn const_of(m: Macro) -> Option<ItemConst> { if last_ident(m.path) == "parameter_types"@ { const_in(m.tokens@) } else { None } }
// The constant stands in a `parameter_types!` of the file, or of its module `constants`.
pub open spec fn db_item(i: Item, w: Weights) -> bool
    decreases i
{
    match i {
        Item::Macro(m) => const_of(m.mac) is Some && db_const(const_of(m.mac)->0, w),
        Item::Mod(m) => m.ident@ == "constants"@ && m.content is Some && exists|k: int| 0 <= k < (m.content->0).1@.len() && db_item(#[trigger] (m.content->0).1@[k], w),
        _ => false,
    }
}
pub open spec fn db_file(s: Seq<Item>, w: Weights) -> bool { exists|i: int| 0 <= i < s.len() && db_item(#[trigger] s[i], w) }
// A sum or product of two numbers.
pub open spec fn bden(b: ExprBinary, n: Names, z: bool) -> Option<nat> {
    match b.op { BinOp::Mul(_) => times(sden(*b.left, n, z), sden(*b.right, n, z)), BinOp::Add(_) => plus(sden(*b.left, n, z), sden(*b.right, n, z)), _ => None }
}
pub open spec fn bmeans(t: Term<u128>, b: ExprBinary) -> bool { forall|n: Names, z: bool| #[trigger] bden(b, n, z) == Some(xval(t, n, z)) }
pub open spec fn btime(t: Term<Weight>, b: ExprBinary) -> bool { forall|u: Dimension, n: Names| #[trigger] cval(t, u, n) == bden(b, n, u != Dimension::Time)->0 && bden(b, n, u != Dimension::Time) is Some }
pub open spec fn oh_term(w: crate::parse::overhead::Weight) -> Term<Weight> { match w { crate::parse::overhead::Weight::BlockExecution(t) => t, crate::parse::overhead::Weight::ExtrinsicBase(t) => t } }
pub open spec fn oh_const(c: ItemConst, w: crate::parse::overhead::Weight) -> bool {
    &&& c.ident@ == (match w { crate::parse::overhead::Weight::BlockExecution(_) => "BlockExecutionWeight"@, crate::parse::overhead::Weight::ExtrinsicBase(_) => "ExtrinsicBaseWeight"@ })
    &&& type_text(*c.ty) == Some("Weight"@)
    &&& (match *c.expr { Expr::Binary(b) => btime(oh_term(w), b), e => weighs(oh_term(w), e) })
}
pub open spec fn oh_item(i: Item, w: crate::parse::overhead::Weight) -> bool
    decreases i
{
    match i {
        Item::Macro(m) => const_of(m.mac) is Some && oh_const(const_of(m.mac)->0, w),
        Item::Mod(m) => m.ident@ == "constants"@ && m.content is Some && exists|k: int| 0 <= k < (m.content->0).1@.len() && oh_item(#[trigger] (m.content->0).1@[k], w),
        _ => false,
    }
}
pub open spec fn oh_file(s: Seq<Item>, w: crate::parse::overhead::Weight) -> bool { exists|i: int| 0 <= i < s.len() && oh_item(#[trigger] s[i], w) }
// What has to be accepted: the struct with both fields and costs that fit, in a constant of this name and type.
pub open spec fn has_field(s: ExprStruct, name: Seq<char>) -> bool { exists|i: int| 0 <= i < s.fields@.len() && member_text((#[trigger] s.fields@[i]).member) == name }
pub open spec fn no_field(s: ExprStruct, name: Seq<char>, n: int) -> bool { forall|i: int| 0 <= i < n && i < s.fields@.len() ==> member_text((#[trigger] s.fields@[i]).member) != name }
pub open spec fn costs_fit(s: ExprStruct) -> bool {
    path_text(s.path, Seq::<char>::empty()) == "RuntimeDbWeight"@ && s.fields@.len() == 2 && has_field(s, "read"@) && has_field(s, "write"@)
        && forall|i: int| 0 <= i < s.fields@.len() ==> cost_fits((#[trigger] s.fields@[i]).expr)
}
pub open spec fn db_fits(c: ItemConst) -> bool {
    &&& c.ident@ == "RocksDbWeight"@ || c.ident@ == "ParityDbWeight"@
    &&& type_text(*c.ty) == Some("RuntimeDbWeight"@)
    &&& (match *c.expr { Expr::Struct(s) => costs_fit(s), _ => false })
}
pub open spec fn sum_fits(b: ExprBinary) -> bool { (b.op is Mul || b.op is Add) && scalar_fits(*b.left) && scalar_fits(*b.right) }
pub open spec fn oh_fits(c: ItemConst) -> bool {
    &&& c.ident@ == "BlockExecutionWeight"@ || c.ident@ == "ExtrinsicBaseWeight"@
    &&& type_text(*c.ty) == Some("Weight"@)
    &&& (match *c.expr { Expr::Binary(b) => sum_fits(b), e => weight_fits(e) })
}
pub open spec fn item_fits(i: Item, db: bool) -> bool
    decreases i
{
    match i {
        Item::Macro(m) => const_of(m.mac) is Some && (if db { db_fits(const_of(m.mac)->0) } else { oh_fits(const_of(m.mac)->0) }),
        Item::Mod(m) => m.ident@ == "constants"@ && m.content is Some && exists|k: int| 0 <= k < (m.content->0).1@.len() && item_fits(#[trigger] (m.content->0).1@[k], db),
        _ => false,
    }
}
pub open spec fn none_fits(s: Seq<Item>, db: bool, n: int) -> bool { forall|k: int| 0 <= k < n && k < s.len() ==> !item_fits(#[trigger] s[k], db) }
pub open spec fn file_fits(s: Seq<Item>, db: bool) -> bool { exists|k: int| 0 <= k < s.len() && item_fits(#[trigger] s[k], db) }
pub proof fn lemma_labels()
    ensures "read"@ != "write"@, ""@ == Seq::<char>::empty(), "read"@.len() == 4, "write"@.len() == 5,
{ reveal_strlit("read"); reveal_strlit("write"); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); assert("read"@.len() != "write"@.len()); }
@end
@fn parse::storage::parse_expression
@decreases *expr
@ensures
        r is Ok ==> cmeans(r->Ok_0, *expr),
        cost_fits(*expr) ==> r is Ok,
@at end
    proof { if __ret is Ok { lemma_cstep(__ret->Ok_0, *expr); } }
@fn parse::storage::type_to_string
@ensures
        r is Ok ==> p is Path && r->Ok_0@ == path_text(p->Path_0.path, match delimiter { Some(d) => d@, None => Seq::<char>::empty() }),
        p is Path ==> r is Ok,
@fn parse::overhead::type_to_string
@ensures
        r is Ok ==> p is Path && r->Ok_0@ == path_text(p->Path_0.path, match delimiter { Some(d) => d@, None => Seq::<char>::empty() }),
        p is Path ==> r is Ok,
@fn parse::storage::member_to_string
@ensures
        r@ == member_text(*m),
@at start
    proof { lemma_labels(); }
@fn parse::storage::parse_runtime_db_weight
@ensures
        r is Ok ==> costs_of(*expr, r->Ok_0),
        costs_fit(*expr) ==> r is Ok,
@loop 0 inv
            invariant
                field_is($acc, *expr, "read"@),
                $acc is None ==> no_field(*expr, "read"@, $i as int),
@loop 1 inv
            invariant
                field_is($acc, *expr, "write"@),
                $acc is None ==> no_field(*expr, "write"@, $i as int),
@fn parse::storage::parse_macro
@ensures
        r is Ok ==> const_in(tokens@) is Some && db_const(const_in(tokens@)->0, r->Ok_0),
        const_in(tokens@) is Some && db_fits(const_in(tokens@)->0) ==> r is Ok,
@fn parse::storage::handle_item
@decreases *item
@requires
        formed(*item),
@ensures
        r is Ok ==> db_item(*item, r->Ok_0),
        item_fits(*item, true) ==> r is Ok,
@loop 0 inv
            invariant
                none_fits($src@, true, $i as int),
@loop 0 found
            invariant
                $acc is None ==> none_fits($src@, true, $i as int),
                $acc is Some ==> db_file($src@, $acc->0),
@fn parse::storage::parse_content
@ensures
        r is Ok ==> file_items(content@) is Some && db_file(file_items(content@)->0, r->Ok_0),
        file_items(content@) is Some && file_fits(file_items(content@)->0, true) ==> r is Ok,
@loop 0 inv
            invariant
                none_fits($src@, true, $i as int),
@loop 0 found
            invariant
                $acc is None ==> none_fits($src@, true, $i as int),
                $acc is Some ==> db_file($src@, $acc->0),
@fn term::&ExprBinary::TryInto<SimpleTerm>::try_into
@ensures
        r is Ok ==> bmeans(r->Ok_0, *self),
        sum_fits(*self) ==> r is Ok,
@fn parse::overhead::parse_macro
@ensures
        r is Ok ==> const_in(tokens@) is Some && oh_const(const_in(tokens@)->0, r->Ok_0),
        const_in(tokens@) is Some && oh_fits(const_in(tokens@)->0) ==> r is Ok,
@fn parse::overhead::handle_item
@decreases *item
@requires
        formed(*item),
@ensures
        r is Ok ==> oh_item(*item, r->Ok_0),
        item_fits(*item, false) ==> r is Ok,
@loop 0 inv
            invariant
                none_fits($src@, false, $i as int),
@loop 0 found
            invariant
                $acc is None ==> none_fits($src@, false, $i as int),
                $acc is Some ==> oh_file($src@, $acc->0),
@fn parse::overhead::parse_content
@ensures
        r is Ok ==> file_items(content@) is Some && oh_file(file_items(content@)->0, r->Ok_0),
        file_items(content@) is Some && file_fits(file_items(content@)->0, false) ==> r is Ok,
@loop 0 inv
            invariant
                none_fits($src@, false, $i as int),
@loop 0 found
            invariant
                $acc is None ==> none_fits($src@, false, $i as int),
                $acc is Some ==> oh_file($src@, $acc->0),
@end
